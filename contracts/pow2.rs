// ---- powers of two
pub proof fn pow2_pos(e: nat) ensures pow2(e) >= 1 decreases e { if e > 0 { pow2_pos((e - 1) as nat); } }
pub proof fn pow2_half(n: int) requires is_pow2(n), n > 1 ensures n % 2 == 0, is_pow2(n / 2), n / 2 >= 1
{ let e = choose|e: nat| n == #[trigger] pow2(e); if e == 0 {} else { assert(pow2(e) == 2 * pow2((e - 1) as nat)); assert(is_pow2(pow2((e - 1) as nat) as int)); pow2_pos((e - 1) as nat); } }
pub proof fn pow2_double(n: int) requires is_pow2(n) ensures is_pow2(2 * n)
{ let e = choose|e: nat| n == #[trigger] pow2(e); assert(pow2(e + 1) == 2 * pow2(e)); }
/// n & (n - 1) == 0 tests for powers of two
pub proof fn pow2_bits(n: usize) requires n >= 1 ensures (n & sub(n, 1)) == 0 <==> is_pow2(n as int) decreases n
{
  if n == 1 { assert(1usize & 0usize == 0) by(bit_vector); assert(pow2(0) == 1); }
  else if n % 2 == 1 {
    assert((n & sub(n, 1)) == sub(n, 1)) by(bit_vector) requires n % 2 == 1;
    if is_pow2(n as int) { pow2_half(n as int); }
  } else {
    let h = n / 2;
    pow2_bits(h);
    assert((n & sub(n, 1)) == 0 <==> (h & sub(h, 1)) == 0) by(bit_vector) requires n % 2 == 0, h == n / 2, n >= 2;
    if is_pow2(n as int) { pow2_half(n as int); }
    if is_pow2(h as int) { pow2_double(h as int); }
  }
}
pub proof fn pow2_small(n: int) requires is_pow2(n), 1 < n <= 16 ensures n == 2 || n == 4 || n == 8 || n == 16
{ pow2_half(n); let a = n / 2; if a > 1 { pow2_half(a); let b = a / 2; if b > 1 { pow2_half(b); let c = b / 2; if c > 1 { pow2_half(c); } } } }
pub proof fn pow2_le(a: int, b: int) requires is_pow2(a), is_pow2(b), a < b ensures 2 * a <= b
{ let e = choose|e: nat| a == #[trigger] pow2(e); let f = choose|f: nat| b == #[trigger] pow2(f); pow2_le0(e, f); }
pub proof fn pow2_le0(e: nat, f: nat) requires pow2(e) < pow2(f) ensures 2 * pow2(e) <= pow2(f) decreases f
{ if f == 0 { pow2_pos(e); } else if e == 0 { pow2_pos((f - 1) as nat); } else { pow2_le0((e - 1) as nat, (f - 1) as nat); } }
pub proof fn one_dft(x: Seq<C>) requires x.len() == 1 ensures is_dft(x, x)
{ assert forall|k: int| 0 <= k < 1 implies #[trigger] x[k] == dft(x, k) by { sub_one(x, 1, 0, 0); } }
pub proof fn one_idft(x: Seq<C>) requires x.len() == 1 ensures is_idft(x, x)
{
  assert forall|k: int| 0 <= k < 1 implies #[trigger] x[k] == idft(x, k) by {
    let f = idft_term(x, 0);
    w_0(1); cmul_1(x[0]); csum_step(f, 0); cadd_0(f(0));
    assert(-(0 * k) == 0);
    assert(x[0].re * (1real / (1 as real)) == x[0].re && x[0].im * (1real / (1 as real)) == x[0].im) by(nonlinear_arith);
  }
}
