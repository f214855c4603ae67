//! Scalars and reference transforms (f64, direct sums or a textbook recursion).
use kofft::num::{Complex, Float};
use std::ops::*;

pub trait Sc: Float + Default {
    const NAME: &'static str;
    const EPS: f64;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = 6e-8;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> Self {
        x as f32
    }
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = 2e-16;
    fn f(self) -> f64 {
        self
    }
    fn of(x: f64) -> Self {
        x
    }
}
/// A third scalar type: exercises the generic code that f32/f64 dispatch away from.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct W(pub f64);
macro_rules! op {
    ($t:ident,$m:ident,$o:tt) => {
        impl $t for W {
            type Output = W;
            fn $m(self, o: W) -> W {
                W(self.0 $o o.0)
            }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl Float for W {
    fn zero() -> Self {
        W(0.0)
    }
    fn one() -> Self {
        W(1.0)
    }
    fn from_f32(x: f32) -> Self {
        W(x as f64)
    }
    fn cos(self) -> Self {
        W(self.0.cos())
    }
    fn sin(self) -> Self {
        W(self.0.sin())
    }
    fn sin_cos(self) -> (Self, Self) {
        let (s, c) = self.0.sin_cos();
        (W(s), W(c))
    }
    fn pi() -> Self {
        W(std::f64::consts::PI)
    }
}
impl Sc for W {
    const NAME: &'static str = "user-defined scalar";
    const EPS: f64 = 2e-16;
    fn f(self) -> f64 {
        self.0
    }
    fn of(x: f64) -> Self {
        W(x)
    }
}

pub type C64 = (f64, f64);
pub fn cmul(a: C64, b: C64) -> C64 {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
pub fn to_c<T: Sc>(x: &[C64]) -> Vec<Complex<T>> {
    x.iter().map(|c| Complex::new(T::of(c.0), T::of(c.1))).collect()
}
pub fn of_c<T: Sc>(x: &[Complex<T>]) -> Vec<C64> {
    x.iter().map(|c| (c.re.f(), c.im.f())).collect()
}
/// Data exactly representable in f32.
/// One sample of the data kind `kind`: mostly dense random, sometimes with the
/// structure that special cases key on (exact zeros, repeated or integer values,
/// a single impulse, a constant or alternating signal).
fn sample(rng: &mut crate::ctx::Rng, kind: usize, i: usize, at: usize, level: f64) -> f64 {
    match kind {
        0 => if rng.below(3) == 0 { 0.0 } else { rng.f32() as f64 },
        1 => (rng.below(5) as f64 - 2.0) * 0.5,
        2 => if i == at { level } else { 0.0 },
        3 => level,
        4 => if i % 2 == 0 { level } else { -level },
        _ => rng.f32() as f64,
    }
}
pub fn rand_r(rng: &mut crate::ctx::Rng, n: usize) -> Vec<f64> {
    let (kind, at, level) = (rng.below(16), rng.below(n.max(1)), rng.f32() as f64);
    (0..n).map(|i| sample(rng, kind, i, at, level)).collect()
}
pub fn rand_c(rng: &mut crate::ctx::Rng, n: usize) -> Vec<C64> {
    let re = rand_r(rng, n);
    let im = rand_r(rng, n);
    re.into_iter().zip(im).collect()
}
pub fn v32(x: &[f64]) -> Vec<f32> {
    x.iter().map(|&v| v as f32).collect()
}
pub fn v64(x: &[f32]) -> Vec<f64> {
    x.iter().map(|&v| v as f64).collect()
}

/// exp(sign*2*pi*i*k/n) with exact argument reduction.
pub fn root(k: usize, n: usize, sign: f64) -> C64 {
    let k = k % n;
    // reduce to the first octant for accuracy
    let th = 2.0 * std::f64::consts::PI * (k as f64) / (n as f64);
    let (s, c) = if 4 * k == n {
        (1.0, 0.0)
    } else if 2 * k == n {
        (0.0, -1.0)
    } else if 4 * k == 3 * n {
        (-1.0, 0.0)
    } else {
        th.sin_cos()
    };
    (c, sign * s)
}

fn fft_pow2(x: &[C64], sign: f64) -> Vec<C64> {
    let n = x.len();
    if n == 1 {
        return x.to_vec();
    }
    let e: Vec<C64> = x.iter().step_by(2).cloned().collect();
    let o: Vec<C64> = x.iter().skip(1).step_by(2).cloned().collect();
    let e = fft_pow2(&e, sign);
    let o = fft_pow2(&o, sign);
    let mut r = vec![(0.0, 0.0); n];
    for k in 0..n / 2 {
        let t = cmul(root(k, n, sign), o[k]);
        r[k] = (e[k].0 + t.0, e[k].1 + t.1);
        r[k + n / 2] = (e[k].0 - t.0, e[k].1 - t.1);
    }
    r
}
/// Unscaled DFT (sign -1) or its conjugate (sign +1).
pub fn dft(x: &[C64], sign: f64) -> Vec<C64> {
    let n = x.len();
    if n == 0 {
        return vec![];
    }
    if n.is_power_of_two() && n >= 32 {
        return fft_pow2(x, sign);
    }
    let tab: Vec<C64> = (0..n).map(|k| root(k, n, sign)).collect();
    (0..n)
        .map(|k| {
            let mut a = (0.0, 0.0);
            let mut idx = 0;
            for v in x {
                let w = tab[idx];
                a.0 += v.0 * w.0 - v.1 * w.1;
                a.1 += v.0 * w.1 + v.1 * w.0;
                idx += k;
                if idx >= n {
                    idx -= n;
                }
            }
            a
        })
        .collect()
}
pub fn idft(x: &[C64]) -> Vec<C64> {
    let n = x.len() as f64;
    dft(x, 1.0).into_iter().map(|c| (c.0 / n, c.1 / n)).collect()
}
pub fn rms(x: &[C64]) -> f64 {
    (x.iter().map(|c| c.0 * c.0 + c.1 * c.1).sum::<f64>() / x.len().max(1) as f64).sqrt()
}
pub fn rms_r(x: &[f64]) -> f64 {
    (x.iter().map(|c| c * c).sum::<f64>() / x.len().max(1) as f64).sqrt()
}
/// Largest deviation relative to the rms of the reference (NaN counts as infinite).
pub fn dev(got: &[C64], want: &[C64]) -> (f64, usize) {
    // sparse references (impulses): rounding is relative to the largest element
    let big = want.iter().map(|c| c.0.hypot(c.1)).fold(0.0, f64::max);
    let s = rms(want).max(big / 8.0).max(1e-30);
    let mut m = (0.0, 0);
    for i in 0..want.len() {
        let d = ((got[i].0 - want[i].0).powi(2) + (got[i].1 - want[i].1).powi(2)).sqrt() / s;
        if !(d <= m.0) {
            m = (if d.is_nan() { f64::INFINITY } else { d }, i);
        }
    }
    m
}
pub fn near_c(got: &[C64], want: &[C64], tol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("length {} instead of {}", got.len(), want.len()));
    }
    let (d, i) = dev(got, want);
    if std::env::var("REPLAY_DEV").is_ok() {
        crate::note_dev(d / tol);
    }
    if d > tol {
        return Err(format!(
            "element {i}: got ({:e}, {:e}), contract value ({:e}, {:e}); deviation {:.3e} x rms, allowed {:.3e}",
            got[i].0, got[i].1, want[i].0, want[i].1, d, tol
        ));
    }
    Ok(())
}
pub fn near_r(got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    let g: Vec<C64> = got.iter().map(|&v| (v, 0.0)).collect();
    let w: Vec<C64> = want.iter().map(|&v| (v, 0.0)).collect();
    near_c(&g, &w, tol)
}
/// Absolute closeness, element by element.
pub fn near_abs(got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("length {} instead of {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if std::env::var("REPLAY_DEV").is_ok() {
            crate::note_dev((got[i] - want[i]).abs() / tol);
        }
        if !((got[i] - want[i]).abs() <= tol) {
            return Err(format!("element {i}: got {:e}, contract value {:e} (allowed {:e})", got[i], want[i], tol));
        }
    }
    Ok(())
}
/// Rounding allowance for a length-n transform in a scalar type.
pub fn tol<T: Sc>(n: usize) -> f64 {
    // Generous: covers tables built by recurrence and f32 constants; a wrong
    // transform deviates by O(1) x rms.
    let n = n as f64;
    if T::EPS > 1e-10 {
        // f32 chirp phases lose ~n ulps on lengths that are not powers of two
        5e-4 + 2e-6 * n.min(2000.0) + 1e-7 * n
    } else {
        1e-6 + 1e-9 * n
    }
}
