// ---- row-major axes -----------------------------------------------------------------
#[verifier::opaque]
pub open spec fn at2(r: int, c: int, w: int) -> int { r * w + c }
pub proof fn at2_val(r: int, c: int, w: int) ensures at2(r, c, w) == r * w + c { reveal(at2); }
pub proof fn at2_carry(r: int, w: int) ensures at2(r, w, w) == at2(r + 1, 0, w), at2(0, 0, w) == 0
{ reveal(at2); assert(r * w + w == (r + 1) * w + 0 && 0 * w == 0) by(nonlinear_arith); }
pub proof fn at2_inj1(r: int, c: int, r2: int, c2: int, w: int) requires 0 <= c < w, 0 <= c2 < w, at2(r, c, w) == at2(r2, c2, w) ensures r == r2, c == c2
{ reveal(at2);
  assert(r == r2) by(nonlinear_arith) requires 0 <= c < w, 0 <= c2 < w, r * w + c == r2 * w + c2;
}
pub proof fn at2_bound1(r: int, c: int, h: int, w: int) requires 0 <= c < w, 0 <= r < h ensures 0 <= at2(r, c, w) < h * w, at2(r, c, w) + 1 <= h * w
{ reveal(at2);
  assert(0 <= r * w && r * w + w <= h * w) by(nonlinear_arith) requires 0 <= r, r + 1 <= h, w > 0; }
/// element i of lane (o, c): an axis of length n with s elements inside it
pub open spec fn ix3(o: int, i: int, c: int, n: int, s: int) -> int { at2(at2(o, i, n), c, s) }
pub proof fn ix3_bound(o: int, i: int, c: int, m: int, n: int, s: int) requires 0 <= o < m, 0 <= i < n, 0 <= c < s ensures 0 <= ix3(o, i, c, n, s) < (m * n) * s
{ at2_bound1(o, i, m, n); at2_bound1(at2(o, i, n), c, m * n, s); }
pub proof fn ix3_inj(o: int, i: int, c: int, o2: int, i2: int, c2: int, n: int, s: int)
  requires 0 <= i < n, 0 <= c < s, 0 <= i2 < n, 0 <= c2 < s, ix3(o, i, c, n, s) == ix3(o2, i2, c2, n, s) ensures o == o2, i == i2, c == c2
{ at2_inj1(at2(o, i, n), c, at2(o2, i2, n), c2, s); at2_inj1(o, i, o2, i2, n); }
pub proof fn ix3_lane(o: int, i: int, c: int, n: int, s: int) ensures ix3(o, i, c, n, s) == ix3(o, 0, c, n, s) + gi(i, s)
{ reveal(at2); reveal(gi); assert((o * n + i) * s + c == ((o * n + 0) * s + c) + i * s) by(nonlinear_arith); }
pub open spec fn lane3(x: Seq<C>, o: int, c: int, n: int, s: int) -> Seq<C> { Seq::new(n as nat, |i: int| x[ix3(o, i, c, n, s)]) }
/// y is x with the 1-D DFT applied along the axis of length n
pub open spec fn is_axis(x: Seq<C>, y: Seq<C>, m: int, n: int, s: int) -> bool {
  x.len() == (m * n) * s && y.len() == x.len()
  && forall|o: int, i: int, c: int| 0 <= o < m && 0 <= i < n && 0 <= c < s ==> y[#[trigger] ix3(o, i, c, n, s)] == dft(lane3(x, o, c, n, s), i) }
/// ... for the first cnt lanes, the others untouched
#[verifier::opaque]
pub open spec fn pass(x: Seq<C>, y: Seq<C>, m: int, n: int, s: int, cnt: int) -> bool {
  x.len() == (m * n) * s && y.len() == x.len()
  && forall|o: int, i: int, c: int| 0 <= o < m && 0 <= i < n && 0 <= c < s ==>
    y[#[trigger] ix3(o, i, c, n, s)] == (if at2(o, c, s) < cnt { dft(lane3(x, o, c, n, s), i) } else { x[ix3(o, i, c, n, s)] }) }
pub proof fn pass_start(x: Seq<C>, m: int, n: int, s: int) requires x.len() == (m * n) * s ensures pass(x, x, m, n, s, 0)
{ reveal(pass); assert forall|o: int, i: int, c: int| 0 <= o < m && 0 <= i < n && 0 <= c < s implies
    x[#[trigger] ix3(o, i, c, n, s)] == (if at2(o, c, s) < 0 { dft(lane3(x, o, c, n, s), i) } else { x[ix3(o, i, c, n, s)] }) by { at2_bound1(o, c, m, s); } }
pub proof fn pass_end(x: Seq<C>, y: Seq<C>, m: int, n: int, s: int, cnt: int) requires pass(x, y, m, n, s, cnt), cnt == at2(m, 0, s), s > 0 ensures is_axis(x, y, m, n, s)
{ reveal(pass); at2_val(m, 0, s);
  assert forall|o: int, i: int, c: int| 0 <= o < m && 0 <= i < n && 0 <= c < s implies y[#[trigger] ix3(o, i, c, n, s)] == dft(lane3(x, o, c, n, s), i) by { at2_bound1(o, c, m, s); } }
/// y0 -> y1 transforms the lane at start with the given stride and nothing else
pub open spec fn lane_op(y0: Seq<C>, y1: Seq<C>, start: int, s: int, n: int) -> bool {
  y1.len() == y0.len()
  && (forall|i: int| 0 <= i < n ==> y1[start + #[trigger] gi(i, s)] == dft(Seq::new(n as nat, |j: int| y0[start + gi(j, s)]), i))
  && (forall|p: int| 0 <= p < y0.len() && !(exists|i: int| 0 <= i < n && p == start + #[trigger] gi(i, s)) ==> #[trigger] y1[p] == y0[p]) }
pub proof fn pass_step(x: Seq<C>, y0: Seq<C>, y1: Seq<C>, m: int, n: int, s: int, o: int, c: int, cnt: int, start: int)
  requires pass(x, y0, m, n, s, cnt), cnt == at2(o, c, s), start == ix3(o, 0, c, n, s), lane_op(y0, y1, start, s, n), 0 <= o < m, 0 <= c < s, n > 0
  ensures pass(x, y1, m, n, s, cnt + 1)
{
  reveal(pass);
  let l = Seq::new(n as nat, |j: int| y0[start + gi(j, s)]);
  assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == lane3(x, o, c, n, s)[i] by { ix3_lane(o, i, c, n, s); assert(y0[ix3(o, i, c, n, s)] == x[ix3(o, i, c, n, s)]); }
  assert(l =~= lane3(x, o, c, n, s));
  assert forall|o2: int, i2: int, c2: int| 0 <= o2 < m && 0 <= i2 < n && 0 <= c2 < s implies
    y1[#[trigger] ix3(o2, i2, c2, n, s)] == (if at2(o2, c2, s) < cnt + 1 { dft(lane3(x, o2, c2, n, s), i2) } else { x[ix3(o2, i2, c2, n, s)] }) by {
    let p = ix3(o2, i2, c2, n, s);
    ix3_bound(o2, i2, c2, m, n, s);
    if o2 == o && c2 == c { ix3_lane(o, i2, c, n, s); assert(y1[start + gi(i2, s)] == dft(l, i2)); }
    else {
      if at2(o2, c2, s) == cnt { at2_inj1(o, c, o2, c2, s); }
      assert forall|i: int| 0 <= i < n implies p != start + #[trigger] gi(i, s) by { ix3_lane(o, i, c, n, s); if p == start + gi(i, s) { ix3_inj(o, i, c, o2, i2, c2, n, s); } }
      assert(y1[p] == y0[p]);
      assert(y0[p] == (if at2(o2, c2, s) < cnt { dft(lane3(x, o2, c2, n, s), i2) } else { x[p] }));
    }
  }
}
/// a strided transform of the tail of a buffer is a lane operation on the buffer
pub proof fn lane_strided(d0: Seq<Complex>, d1: Seq<Complex>, t1: Seq<Complex>, start: int, s: int, n: int)
  requires 0 <= start <= d0.len(), s > 0, n >= 1, d0.len() == d1.len(), start + (n - 1) * s < d0.len(),
    d1 == d0.subrange(0, start) + t1,
    frame(d0.subrange(start, d0.len() as int), t1, s, n),
    is_dft(gather(d0.subrange(start, d0.len() as int), s, n), gather(t1, s, n))
  ensures lane_op(vseq(d0), vseq(d1), start, s, n)
{
  let t0 = d0.subrange(start, d0.len() as int); let y0 = vseq(d0); let y1 = vseq(d1);
  gi_bound(n, s, d0.len() - start);
  let l = Seq::new(n as nat, |j: int| y0[start + gi(j, s)]);
  assert(l =~= gather(t0, s, n));
  assert forall|i: int| 0 <= i < n implies y1[start + #[trigger] gi(i, s)] == dft(l, i) by { assert(gather(t1, s, n)[i] == dft(gather(t0, s, n), i)); assert(d1[start + gi(i, s)] == t1[gi(i, s)]); }
  assert forall|p: int| 0 <= p < y0.len() && !(exists|i: int| 0 <= i < n && p == start + #[trigger] gi(i, s)) implies #[trigger] y1[p] == y0[p] by {
    if p < start { assert(d1[p] == d0[p]); }
    else {
      let q = p - start;
      assert forall|i: int| 0 <= i < n implies q != #[trigger] gi(i, s) by { if q == gi(i, s) { assert(p == start + gi(i, s)); } }
      assert(t1[q] == t0[q]); assert(d1[p] == t1[q]); assert(d0[p] == t0[q]);
    }
  }
}
/// a transform of a contiguous piece is a lane operation with stride 1
pub proof fn lane_row(d0: Seq<Complex>, d1: Seq<Complex>, t1: Seq<Complex>, start: int, n: int)
  requires 0 <= start, n >= 1, start + n <= d0.len(), d0.len() == d1.len(), t1.len() == n,
    d1 == d0.subrange(0, start) + t1 + d0.subrange(start + n, d0.len() as int),
    is_dft(vseq(d0.subrange(start, start + n)), vseq(t1))
  ensures lane_op(vseq(d0), vseq(d1), start, 1, n)
{
  let y0 = vseq(d0); let y1 = vseq(d1);
  reveal(gi);
  assert forall|i: int| #[trigger] gi(i, 1) == i by {}
  let l = Seq::new(n as nat, |j: int| y0[start + gi(j, 1)]);
  assert(l =~= vseq(d0.subrange(start, start + n)));
  assert forall|i: int| 0 <= i < n implies y1[start + #[trigger] gi(i, 1)] == dft(l, i) by { assert(vseq(t1)[i] == dft(l, i)); assert(d1[start + i] == t1[i]); }
  assert forall|p: int| 0 <= p < y0.len() && !(exists|i: int| 0 <= i < n && p == start + #[trigger] gi(i, 1)) implies #[trigger] y1[p] == y0[p] by {
    if start <= p < start + n { assert(p == start + gi(p - start, 1)); }
  }
}
