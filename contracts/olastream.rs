// ---- overlap-add, one frame at a time ---------------------------------------------------
pub proof fn acc_ext(xs: Seq<Vec<Complex>>, ys: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int)
  requires n >= 0, forall|f: int| 0 <= f < n ==> #[trigger] xs[f] == ys[f]
  ensures oacc(xs, win, hop, n, t) == oacc(ys, win, hop, n, t)
  decreases n
{ if n > 0 { assert(xs[n - 1] == ys[n - 1]); acc_ext(xs, ys, win, hop, n - 1, t); acc_step(xs, win, hop, n - 1, t); acc_step(ys, win, hop, n - 1, t); } else { acc_0(xs, win, hop, t); acc_0(ys, win, hop, t); } }
/// no frame among the first n reaches sample t
pub proof fn acc_beyond(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int)
  requires n >= 0, t >= fpos(n - 1, hop) + win.len()
  ensures oacc(xs, win, hop, n, t) == 0real, nacc(win, hop, n, t) == 0real
  decreases n
{
  if n > 0 {
    assert(fpos(n - 2, hop) <= fpos(n - 1, hop)) by { assert((n - 2) * hop <= (n - 1) * hop) by(nonlinear_arith) requires hop >= 0; }
    acc_beyond(xs, win, hop, n - 1, t); acc_step(xs, win, hop, n - 1, t);
  } else { acc_0(xs, win, hop, t); }
}
/// frames from m on start after sample t: a chunk emitted after m frames is final, whatever is pushed later
pub proof fn acc_tail(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, m: int, n: int, t: int)
  requires 0 <= m <= n, t < fpos(m, hop)
  ensures oacc(xs, win, hop, n, t) == oacc(xs, win, hop, m, t), nacc(win, hop, n, t) == nacc(win, hop, m, t)
  decreases n
{
  if n > m {
    assert(fpos(m, hop) <= fpos(n - 1, hop)) by { assert(m * hop <= (n - 1) * hop) by(nonlinear_arith) requires m <= n - 1, hop >= 0; }
    acc_tail(xs, win, hop, m, n - 1, t); acc_step(xs, win, hop, n - 1, t);
  }
}
/// the stream's buffers hold frames xs over the window-long stretch that starts at b = n*hop
#[verifier::opaque]
pub open spec fn hist(o: Seq<R>, nm: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, b: int) -> bool {
  forall|t: int| b <= t < b + win.len() ==> (#[trigger] o[t])@ == oacc(xs, win, hop, n, t) && nm[t]@ == nacc(win, hop, n, t) }
/// sample t of the batch reconstruction of the first n frames, from a zeroed output
pub open spec fn rec_at(xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, t: int) -> real { quot(0real + oacc(xs, win, hop, n, t), nacc(win, hop, n, t)) }
/// the samples in c are the batch reconstruction of the first n frames from sample b on
pub open spec fn is_rec(c: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, b: int) -> bool {
  forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j])@ == rec_at(xs, win, hop, n, b + j) }
/// samples [b, e) of p, q were divided by the normaliser, which was cleared
pub open spec fn normed(p: Seq<R>, q: Seq<R>, o: Seq<R>, nm: Seq<R>, b: int, e: int) -> bool {
  o.len() == p.len() && nm.len() == q.len()
  && (forall|t: int| 0 <= t < o.len() ==> (#[trigger] o[t])@ == (if b <= t < e { quot(p[t]@, q[t]@) } else { p[t]@ }))
  && (forall|t: int| 0 <= t < nm.len() ==> (#[trigger] nm[t])@ == (if b <= t < e { 0real } else { q[t]@ })) }
/// samples [b, e) were cleared; samples past the old end are new
pub open spec fn cleared(p: Seq<R>, q: Seq<R>, o: Seq<R>, nm: Seq<R>, b: int, e: int) -> bool {
  o.len() >= p.len() && nm.len() == o.len()
  && (forall|t: int| 0 <= t < p.len() ==> (#[trigger] o[t])@ == (if b <= t < e { 0real } else { p[t]@ }))
  && (forall|t: int| 0 <= t < q.len() ==> (#[trigger] nm[t])@ == (if b <= t < e { 0real } else { q[t]@ }))
  && (forall|t: int| b <= t < e ==> (#[trigger] o[t])@ == 0real && nm[t]@ == 0real) }
pub proof fn cleared_step(p: Seq<R>, q: Seq<R>, o: Seq<R>, nm: Seq<R>, o2: Seq<R>, nm2: Seq<R>, b: int, e: int)
  requires cleared(p, q, o, nm, b, e), 0 <= b <= e < o.len(), o2.len() == o.len(), nm2.len() == o.len(),
    o2 == o.update(e, o2[e]), nm2 == nm.update(e, nm2[e]), o2[e]@ == 0real, nm2[e]@ == 0real
  ensures cleared(p, q, o2, nm2, b, e + 1)
{
  assert forall|t: int| 0 <= t < p.len() implies (#[trigger] o2[t])@ == (if b <= t < e + 1 { 0real } else { p[t]@ }) by { if t != e { assert(o2[t] == o[t]); } }
  assert forall|t: int| 0 <= t < q.len() implies (#[trigger] nm2[t])@ == (if b <= t < e + 1 { 0real } else { q[t]@ }) by { if t != e { assert(nm2[t] == nm[t]); } }
  assert forall|t: int| b <= t < e + 1 implies (#[trigger] o2[t])@ == 0real && nm2[t]@ == 0real by { if t != e { assert(o2[t] == o[t]); assert(nm2[t] == nm[t]); } }
}
/// one pushed frame: o0/n0 before, o1/n1 with the frame added, o2/n2 with the chunk normalised, o3/n3 after clearing
pub proof fn hist_push(o0: Seq<R>, n0: Seq<R>, o1: Seq<R>, n1: Seq<R>, o2: Seq<R>, n2: Seq<R>, o3: Seq<R>, n3: Seq<R>,
    y: Seq<C>, xs: Seq<Vec<Complex>>, v: Vec<Complex>, win: Seq<R>, hop: usize, n: int, b: int)
  requires n >= 0, b == fpos(n, hop), 0 < hop <= win.len(), b + win.len() <= o0.len(), n0.len() == o0.len(), xs.len() == n,
    hist(o0, n0, xs, win, hop, n, b), is_idft(vseq(v@), y), v@.len() == win.len(),
    ola_mid(o0, n0, o1, n1, y, win, b, win.len() as int), normed(o1, n1, o2, n2, b, b + hop), cleared(o2, n2, o3, n3, b + win.len(), b + win.len() + hop)
  ensures hist(o3, n3, xs.push(v), win, hop, n + 1, b + hop), b + hop == fpos(n + 1, hop),
    forall|t: int| b <= t < b + hop ==> (#[trigger] o3[t])@ == rec_at(xs.push(v), win, hop, n + 1, t)
{
  reveal(hist);
  let ys = xs.push(v);
  assert(b + hop == fpos(n + 1, hop)) by { assert((n + 1) * hop == n * hop + hop) by(nonlinear_arith); }
  assert forall|t: int| b <= t < b + win.len() implies (#[trigger] o1[t])@ == oacc(ys, win, hop, n + 1, t) && n1[t]@ == nacc(win, hop, n + 1, t) by {
    assert(o0[t]@ == oacc(xs, win, hop, n, t));
    acc_ext(xs, ys, win, hop, n, t); acc_step(ys, win, hop, n, t);
    assert(ys[n] == v); assert(y[t - b] == idft(vseq(v@), t - b));
    assert(n1[t]@ == n0[t]@ + win[t - b]@ * win[t - b]@);
  }
  assert forall|t: int| b + hop <= t < b + hop + win.len() implies (#[trigger] o3[t])@ == oacc(ys, win, hop, n + 1, t) && n3[t]@ == nacc(win, hop, n + 1, t) by {
    if t < b + win.len() { assert(o1[t]@ == oacc(ys, win, hop, n + 1, t)); assert(o2[t]@ == o1[t]@); assert(n2[t]@ == n1[t]@); assert(o3[t]@ == o2[t]@); assert(n3[t]@ == n2[t]@); }
    else { acc_beyond(ys, win, hop, n + 1, t); assert(o3[t]@ == 0real); }
  }
  assert forall|t: int| b <= t < b + hop implies (#[trigger] o3[t])@ == rec_at(ys, win, hop, n + 1, t) by { assert(o1[t]@ == oacc(ys, win, hop, n + 1, t)); assert(o2[t]@ == quot(o1[t]@, n1[t]@)); assert(o3[t]@ == o2[t]@); }
}
pub proof fn hist_flush(o0: Seq<R>, n0: Seq<R>, o: Seq<R>, nm: Seq<R>, xs: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, n: int, b: int, e: int)
  requires hist(o0, n0, xs, win, hop, n, b), 0 <= b <= e <= b + win.len() <= o0.len(), n0.len() == o0.len(), normed(o0, n0, o, nm, b, e)
  ensures forall|t: int| b <= t < e ==> (#[trigger] o[t])@ == rec_at(xs, win, hop, n, t)
{ reveal(hist); assert forall|t: int| b <= t < e implies (#[trigger] o[t])@ == rec_at(xs, win, hop, n, t) by { assert(o0[t]@ == oacc(xs, win, hop, n, t)); } }
/// every chunk, emitted or flushed, is that stretch of the reconstruction of ALL frames, pushed before or later
pub proof fn chunk_final(c: Seq<R>, xs: Seq<Vec<Complex>>, ys: Seq<Vec<Complex>>, win: Seq<R>, hop: usize, m: int, b: int)
  requires 0 <= m <= ys.len(), m == xs.len(), is_rec(c, xs, win, hop, m, b), b + c.len() <= fpos(m, hop), forall|f: int| 0 <= f < m ==> #[trigger] xs[f] == ys[f]
  ensures is_rec(c, ys, win, hop, ys.len() as int, b)
{
  assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j])@ == rec_at(ys, win, hop, ys.len() as int, b + j) by {
    acc_ext(xs, ys, win, hop, m, b + j); acc_tail(ys, win, hop, m, ys.len() as int, b + j);
  }
}
