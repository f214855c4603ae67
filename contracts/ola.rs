// ---- overlap-add ---------------------------------------------------------------------
pub open spec fn fpos(f: int, hop: usize) -> int { f * hop }
/// what frame f (spectrum xs[f]) contributes to output sample t, and to the normaliser
pub open spec fn ola_term(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, t: int) -> spec_fn(int) -> real {
  |f: int| { let i = t - fpos(f, hop); if 0 <= i < win.len() { idft(vseq(xs[f]@), i).re * win[i]@ } else { 0real } } }
pub open spec fn norm_term(win: Seq<R>, hop: usize, t: int) -> spec_fn(int) -> real {
  |f: int| { let i = t - fpos(f, hop); if 0 <= i < win.len() { win[i]@ * win[i]@ } else { 0real } } }
#[verifier::opaque]
pub open spec fn oacc(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int) -> real { rsum(ola_term(xs, win, hop, t), n) }
#[verifier::opaque]
pub open spec fn nacc(win: Seq<R>, hop: usize, n: int, t: int) -> real { rsum(norm_term(win, hop, t), n) }
pub open spec fn quot(a: real, n: real) -> real { if n > 1real / 100000000real { a / n } else { a } }
pub proof fn acc_0(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, t: int) ensures oacc(xs, win, hop, 0, t) == 0real, nacc(win, hop, 0, t) == 0real { reveal(oacc); reveal(nacc); }
pub proof fn acc_step(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int) requires n >= 0
  ensures oacc(xs, win, hop, n + 1, t) == oacc(xs, win, hop, n, t) + (if 0 <= t - fpos(n, hop) < win.len() { idft(vseq(xs[n]@), t - fpos(n, hop)).re * win[t - fpos(n, hop)]@ } else { 0real }),
    nacc(win, hop, n + 1, t) == nacc(win, hop, n, t) + (if 0 <= t - fpos(n, hop) < win.len() { win[t - fpos(n, hop)]@ * win[t - fpos(n, hop)]@ } else { 0real })
{ reveal(oacc); reveal(nacc); rsum_step(ola_term(xs, win, hop, t), n); rsum_step(norm_term(win, hop, t), n); }
/// both accumulators hold the first n frames
#[verifier::opaque]
pub open spec fn ola_state(o0: Seq<R>, o: Seq<R>, nm: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int) -> bool {
  o.len() == o0.len() && nm.len() == o.len()
  && forall|t: int| 0 <= t < o.len() ==> (#[trigger] o[t])@ == o0[t]@ + oacc(xs, win, hop, n, t) && nm[t]@ == nacc(win, hop, n, t) }
pub proof fn ola_start(o0: Seq<R>, nm: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize)
  requires nm.len() == o0.len(), forall|t: int| 0 <= t < nm.len() ==> (#[trigger] nm[t])@ == 0real
  ensures ola_state(o0, o0, nm, xs, win, hop, 0)
{ reveal(ola_state); assert forall|t: int| 0 <= t < o0.len() implies (#[trigger] o0[t])@ == o0[t]@ + oacc(xs, win, hop, 0, t) && nm[t]@ == nacc(win, hop, 0, t) by { acc_0(xs, win, hop, t); assert(nm[t]@ == 0real); } }
/// the first i samples of frame n have been added as well
pub open spec fn ola_mid(p: Seq<R>, q: Seq<R>, o: Seq<R>, nm: Seq<R>, y: Seq<C>, win: Seq<R>, start: int, i: int) -> bool {
  o.len() == p.len() && nm.len() == q.len()
  && (forall|t: int| 0 <= t < o.len() ==> (#[trigger] o[t])@ == p[t]@ + (if start <= t < start + i { y[t - start].re * win[t - start]@ } else { 0real }))
  && (forall|t: int| 0 <= t < nm.len() ==> (#[trigger] nm[t])@ == q[t]@ + (if start <= t < start + i { win[t - start]@ * win[t - start]@ } else { 0real })) }
pub proof fn ola_next(o0: Seq<R>, p: Seq<R>, q: Seq<R>, o: Seq<R>, nm: Seq<R>, y: Seq<C>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int)
  requires ola_state(o0, p, q, xs, win, hop, n), n >= 0, is_idft(vseq(xs[n]@), y), xs[n]@.len() == win.len(), ola_mid(p, q, o, nm, y, win, fpos(n, hop), win.len() as int)
  ensures ola_state(o0, o, nm, xs, win, hop, n + 1)
{
  reveal(ola_state);
  assert forall|t: int| 0 <= t < o.len() implies (#[trigger] o[t])@ == o0[t]@ + oacc(xs, win, hop, n + 1, t) && nm[t]@ == nacc(win, hop, n + 1, t) by {
    acc_step(xs, win, hop, n, t);
    assert(p[t]@ == o0[t]@ + oacc(xs, win, hop, n, t));
    assert(nm[t]@ == q[t]@ + (if fpos(n, hop) <= t < fpos(n, hop) + win.len() { win[t - fpos(n, hop)]@ * win[t - fpos(n, hop)]@ } else { 0real }));
    let i = t - fpos(n, hop);
    if 0 <= i < win.len() { assert(y[i] == idft(vseq(xs[n]@), i)); }
  }
}
pub proof fn ola_at(o0: Seq<R>, o: Seq<R>, nm: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int)
  requires ola_state(o0, o, nm, xs, win, hop, n), 0 <= t < o.len()
  ensures o[t]@ == o0[t]@ + oacc(xs, win, hop, n, t), nm[t]@ == nacc(win, hop, n, t), nm.len() == o.len(), o.len() == o0.len()
{ reveal(ola_state); assert(o[t]@ == o0[t]@ + oacc(xs, win, hop, n, t)); }
/// inverting frames that are the STFT of a signal gives the signal times the normaliser
pub open spec fn wsl_at(sig: Seq<R>, win: Seq<R>, start: int, i: int) -> C { C { re: if start + i < sig.len() { sig[start + i]@ * win[i]@ } else { 0real }, im: 0real } }
pub open spec fn wsl(sig: Seq<R>, win: Seq<R>, start: int) -> Seq<C> { Seq::new(win.len(), |i: int| wsl_at(sig, win, start, i)) }
pub proof fn ola_roundtrip(sig: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int)
  requires win.len() > 0, 0 <= t < sig.len(), 0 <= n <= xs.len(), forall|f: int| 0 <= f < n ==> is_dft(wsl(sig, win, fpos(f, hop)), vseq(#[trigger] xs[f]@))
  ensures oacc(xs, win, hop, n, t) == sig[t]@ * nacc(win, hop, n, t),
    nacc(win, hop, n, t) > 1real / 100000000real ==> quot(0real + oacc(xs, win, hop, n, t), nacc(win, hop, n, t)) == sig[t]@
  decreases n
{
  let s = sig[t]@; let q = nacc(win, hop, n, t);
  if n > 0 {
    ola_roundtrip(sig, xs, win, hop, n - 1, t);
    acc_step(xs, win, hop, n - 1, t);
    let f = n - 1; let i = t - fpos(f, hop); let q1 = nacc(win, hop, n - 1, t);
    if 0 <= i < win.len() {
      inversion(wsl(sig, win, fpos(f, hop)), vseq(xs[f]@), i);
      vstd::arithmetic::div_mod::lemma_small_mod(i as nat, win.len());
      let w = win[i]@;
      assert((s * w) * w == s * (w * w)) by(nonlinear_arith);
      assert(s * q1 + s * (w * w) == s * (q1 + w * w)) by(nonlinear_arith);
    } else { assert(q == q1); }
  } else { acc_0(xs, win, hop, t); assert(s * 0real == 0real) by(nonlinear_arith); }
  if q > 1real / 100000000real { assert((s * q) / q == s) by(nonlinear_arith) requires q > 0real; }
}
