// ---- ghost finite sums ----------------------------------------------------------
pub open spec fn rsum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(f, n - 1) + f(n - 1) } }
pub proof fn rsum_step(f: spec_fn(int) -> real, n: int) requires n >= 0 ensures rsum(f, n + 1) == rsum(f, n) + f(n) {}
pub proof fn rsum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
  ensures rsum(f, n) == rsum(g, n)
  decreases n
{ if n > 0 { rsum_ext(f, g, n - 1); } }
pub proof fn real_assoc(a: real, b: real, n: real)
  requires n != 0real
  ensures (a / n) * b == (a * b) / n
{ assert((a / n) * b == (a * b) / n) by(nonlinear_arith) requires n != 0real; }
pub proof fn ang3(p: real, n: real, a: real, b: real)
  requires n != 0real
  ensures (p / n) * a * b == (p * (a * b)) / n
{ assert((p / n) * a * b == (p * (a * b)) / n) by(nonlinear_arith) requires n != 0real; }
pub proof fn ang3b(p: real, n: real, a: real, b: real)
  requires n != 0real
  ensures a * b * (p / n) == (p * (a * b)) / n, (p / n) * (a * b) == (p * (a * b)) / n, (p / n) * b * a == (p * (a * b)) / n
{ assert(a * b * (p / n) == (p * (a * b)) / n) by(nonlinear_arith) requires n != 0real;
  assert((p / n) * (a * b) == (p * (a * b)) / n) by(nonlinear_arith) requires n != 0real;
  assert((p / n) * b * a == (p * (a * b)) / n) by(nonlinear_arith) requires n != 0real; }
