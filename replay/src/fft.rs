//! Monitors for the complex FFT family: C01-C07, C09, C28.
use crate::ctx::*;
use crate::num::*;
use kofft::fft::*;
use kofft::num::Complex;

type Cx<T> = Complex<T>;
type Entry<T> = (&'static str, Box<dyn Fn(&[Cx<T>]) -> Result<Vec<Cx<T>>, FftError>>);

fn ent<T: Sc>(n: &'static str, f: impl Fn(&[Cx<T>]) -> Result<Vec<Cx<T>>, FftError> + 'static) -> Entry<T> {
    (n, Box::new(f))
}
fn inp<T: Sc>(n: &'static str, f: impl Fn(&mut [Cx<T>]) -> Result<(), FftError> + 'static) -> Entry<T> {
    ent(n, move |x| {
        let mut v = x.to_vec();
        f(&mut v)?;
        Ok(v)
    })
}
fn split_of<T: Sc>(x: &[Cx<T>]) -> (Vec<T>, Vec<T>) {
    (x.iter().map(|c| c.re).collect(), x.iter().map(|c| c.im).collect())
}
fn join<T: Sc>(re: &[T], im: &[T]) -> Vec<Cx<T>> {
    re.iter().zip(im).map(|(&r, &i)| Complex::new(r, i)).collect()
}
fn s<T: Sc>() -> ScalarFftImpl<T> {
    ScalarFftImpl::<T>::default()
}

/// Forward entry points for any scalar.
pub fn fwd<T: Sc>() -> Vec<Entry<T>> {
    let mut v: Vec<Entry<T>> = vec![
        inp("ScalarFftImpl::fft", |x| s::<T>().fft(x)),
        inp("ScalarFftImpl::with_planner(..).fft", |x| ScalarFftImpl::<T>::with_planner(FftPlanner::new()).fft(x)),
        inp("ScalarFftImpl::stockham_fft", |x| s::<T>().stockham_fft(x)),
        inp("fft_with_strategy(Radix2)", |x| s::<T>().fft_with_strategy(x, FftStrategy::Radix2)),
        inp("fft_with_strategy(Radix4)", |x| s::<T>().fft_with_strategy(x, FftStrategy::Radix4)),
        inp("fft_with_strategy(SplitRadix)", |x| s::<T>().fft_with_strategy(x, FftStrategy::SplitRadix)),
        inp("fft_with_strategy(Auto)", |x| s::<T>().fft_with_strategy(x, FftStrategy::Auto)),
        inp("fft_parallel", |x| fft_parallel(x)),
    ];
    #[cfg(not(feature = "cfg_nostd"))]
    {
        v.push(inp("ScalarFftImpl::fft_radix4", |x| s::<T>().fft_radix4(x)));
        v.push(inp("FftPlan(Radix2).fft", |x| FftPlan::<T>::new(x.len(), FftStrategy::Radix2).fft(x)));
        v.push(inp("FftPlan(Radix4).fft", |x| FftPlan::<T>::new(x.len(), FftStrategy::Radix4).fft(x)));
        v.push(inp("FftPlan(SplitRadix).fft", |x| FftPlan::<T>::new(x.len(), FftStrategy::SplitRadix).fft(x)));
        v.push(inp("FftPlan(Auto).fft", |x| FftPlan::<T>::new(x.len(), FftStrategy::Auto).fft(x)));
    }
    v
}
/// Additional f32-only forward entry points.
pub fn fwd32() -> Vec<Entry<f32>> {
    let mut v: Vec<Entry<f32>> = vec![
        inp("new_fft_impl().fft", |x| new_fft_impl().fft(x)),
        inp("new_fft_impl().fft_with_strategy(Radix4)", |x| new_fft_impl().fft_with_strategy(x, FftStrategy::Radix4)),
        inp("ScalarFftImpl::fft_mixed_radix", |x| s::<f32>().fft_mixed_radix(x)),
    ];
    #[cfg(target_arch = "x86_64")]
    v.push(inp("SimdFftX86_64Impl.fft", |x| SimdFftX86_64Impl.fft(x)));
    #[cfg(target_arch = "x86_64")]
    for st in [FftStrategy::Radix2, FftStrategy::SplitRadix, FftStrategy::Auto] {
        v.push(inp("SimdFftX86_64Impl.fft_with_strategy", move |x| SimdFftX86_64Impl.fft_with_strategy(x, st)));
    }
    #[cfg(not(feature = "cfg_nostd"))]
    {
        v.push(inp("fft_radix2_with_twiddles", |x| s::<f32>().fft_radix2_with_twiddles(x, &TwiddleFactorBuffer::new(x.len()))));
        v.push(inp("fft_radix4_with_twiddles", |x| s::<f32>().fft_radix4_with_twiddles(x, &TwiddleFactorBuffer::new(x.len()))));
        v.push(inp("fft_mixed_radix_with_twiddles", |x| {
            s::<f32>().fft_mixed_radix_with_twiddles(x, &TwiddleFactorBuffer::new(x.len()))
        }));
    }
    v
}
/// Inverse entry points, in place.
pub fn inv<T: Sc>() -> Vec<Entry<T>> {
    let mut v: Vec<Entry<T>> = vec![
        inp("ScalarFftImpl::ifft", |x| s::<T>().ifft(x)),
        inp("ifft_parallel", |x| ifft_parallel(x)),
    ];
    #[cfg(not(feature = "cfg_nostd"))]
    for st in [FftStrategy::Radix2, FftStrategy::Radix4, FftStrategy::SplitRadix, FftStrategy::Auto] {
        v.push(inp("FftPlan.ifft", move |x| FftPlan::<T>::new(x.len(), st).ifft(x)));
    }
    v
}
pub fn inv32() -> Vec<Entry<f32>> {
    vec![
        inp("new_fft_impl().ifft", |x| new_fft_impl().ifft(x)),
        #[cfg(target_arch = "x86_64")]
        inp("SimdFftX86_64Impl.ifft", |x| SimdFftX86_64Impl.ifft(x)),
    ]
}
/// Forms of C06 (forward if !i, inverse if i).
pub fn forms<T: Sc>(i: bool) -> Vec<Entry<T>> {
    let mut v: Vec<Entry<T>> = vec![
        ent("out_of_place", move |x| {
            let mut o = vec![Complex::new(T::of(9.0), T::of(-7.0)); x.len()];
            if i {
                s::<T>().ifft_out_of_place(x, &mut o)?
            } else {
                s::<T>().fft_out_of_place(x, &mut o)?
            }
            Ok(o)
        }),
        ent("ScalarFftImpl split", move |x| {
            let (mut r, mut m) = split_of(x);
            if i {
                s::<T>().ifft_split(&mut r, &mut m)?
            } else {
                s::<T>().fft_split(&mut r, &mut m)?
            }
            Ok(join(&r, &m))
        }),
        ent("free split", move |x| {
            let (mut r, mut m) = split_of(x);
            if i {
                ifft_split(&mut r, &mut m)?
            } else {
                fft_split(&mut r, &mut m)?
            }
            Ok(join(&r, &m))
        }),
        ent("split_complex", move |x| {
            let (mut r, mut m) = split_of(x);
            if i {
                ifft_split_complex(SplitComplex::new(&mut r, &mut m))?
            } else {
                fft_split_complex(SplitComplex::new(&mut r, &mut m))?
            }
            Ok(join(&r, &m))
        }),
    ];
    #[cfg(not(feature = "cfg_nostd"))]
    {
        v.push(ent("vec", move |x| if i { s::<T>().ifft_vec(x) } else { s::<T>().fft_vec(x) }));
        for st in [FftStrategy::Radix2, FftStrategy::Radix4, FftStrategy::SplitRadix, FftStrategy::Auto] {
            v.push(ent("FftPlan out_of_place", move |x| {
                let mut o = vec![Complex::new(T::of(9.0), T::of(-7.0)); x.len()];
                let p = FftPlan::<T>::new(x.len(), st);
                if i {
                    p.ifft_out_of_place(x, &mut o)?
                } else {
                    p.fft_out_of_place(x, &mut o)?
                }
                Ok(o)
            }));
            v.push(ent("FftPlan split", move |x| {
                let (mut r, mut m) = split_of(x);
                let p = FftPlan::<T>::new(x.len(), st);
                if i {
                    p.ifft_split(&mut r, &mut m)?
                } else {
                    p.fft_split(&mut r, &mut m)?
                }
                Ok(join(&r, &m))
            }));
        }
    }
    v
}
pub fn forms32(i: bool) -> Vec<Entry<f32>> {
    #[allow(unused_mut)]
    let mut v: Vec<Entry<f32>> = vec![
        ent("trait-default split (dyn FftImpl)", move |x| {
            let (mut r, mut m) = split_of(x);
            let e = new_fft_impl();
            if i {
                e.ifft_split(&mut r, &mut m)?
            } else {
                e.fft_split(&mut r, &mut m)?
            }
            Ok(join(&r, &m))
        }),
        ent("trait-default out_of_place (dyn FftImpl)", move |x| {
            let mut o = vec![Complex::new(9.0, -7.0); x.len()];
            let e = new_fft_impl();
            if i {
                e.ifft_out_of_place(x, &mut o)?
            } else {
                e.fft_out_of_place(x, &mut o)?
            }
            Ok(o)
        }),
    ];
    #[cfg(feature = "cfg_full")]
    {
        use kofft::num::ComplexVec;
        v.push(ent("complex_vec", move |x| {
            let mut c = ComplexVec::from(x.to_vec());
            if i {
                ifft_complex_vec(&mut c)?
            } else {
                fft_complex_vec(&mut c)?
            }
            Ok(c.into())
        }));
        v.push(ent("FftPlan complex_vec", move |x| {
            let mut c = ComplexVec::from(x.to_vec());
            let p = FftPlan::<f32>::new(x.len(), FftStrategy::Auto);
            if i {
                p.ifft_complex_vec(&mut c)?
            } else {
                p.fft_complex_vec(&mut c)?
            }
            Ok(c.into())
        }));
    }
    v
}

fn nostd() -> bool {
    cfg!(feature = "cfg_nostd")
}
fn allowed_err(n: usize, e: FftError) -> bool {
    nostd() && !n.is_power_of_two() && e == FftError::NonPowerOfTwoNoStd
}

/// One transform against the reference, over a length.
fn one<T: Sc>(cx: &mut Ctx, tag: &str, e: &Entry<T>, x: &[C64], want: &[C64], what: &str, n_tol: f64) {
    let n = x.len();
    let case = format!("{} {} n={n} {what} seed={}", e.0, T::NAME, cx.seed);
    let xi = to_c::<T>(x);
    cx.check(tag, &case, |_| match (e.1)(&xi) {
        Ok(y) => near_c(&of_c(&y), want, tol::<T>(n) * n_tol),
        Err(er) if allowed_err(n, er) => Ok(()),
        Err(er) => Err(format!("returned Err({er:?})")),
    });
}

fn kernels<T: Sc>(cx: &mut Ctx) {
    for n in [2usize, 4, 8, 16] {
        for rep in 0..4 {
            let x = signal(cx, n, rep);
            let want = dft(&x, -1.0);
            let e: Entry<T> = inp("fixed-size kernel", move |v| {
                match n {
                    2 => kofft_k::fft2(v),
                    4 => kofft_k::fft4(v),
                    8 => fft8(v),
                    _ => fft16(v),
                }
                Ok(())
            });
            if n >= 8 {
                one::<T>(cx, "kernel", &e, &x, &want, "", 1.0);
            }
        }
    }
}
mod kofft_k {
    use kofft::num::{Complex, Float};
    pub fn fft2<T: Float>(_: &mut [Complex<T>]) {}
    pub fn fft4<T: Float>(_: &mut [Complex<T>]) {}
}

/// Input families: random, impulse, tone, real, large dynamic range.
pub fn signal(cx: &mut Ctx, n: usize, kind: usize) -> Vec<C64> {
    match kind % 5 {
        0 => rand_c(&mut cx.rng, n),
        1 => {
            let p = cx.rng.below(n);
            let mut v = vec![(0.0, 0.0); n];
            v[p] = (1.0, -0.5);
            v
        }
        2 => {
            let k = cx.rng.below(n);
            (0..n)
                .map(|j| {
                    let r = root(j * k % n, n, 1.0);
                    (r.0 as f32 as f64, r.1 as f32 as f64)
                })
                .collect()
        }
        3 => rand_r(&mut cx.rng, n).into_iter().map(|v| (v, 0.0)).collect(),
        _ => rand_c(&mut cx.rng, n).into_iter().enumerate().map(|(i, c)| if i % 7 == 3 { (c.0 * 1000.0, c.1) } else { c }).collect(),
    }
}

fn maxlen<T: Sc>(cx: &Ctx, pow2: bool) -> usize {
    if pow2 {
        if cx.thorough {
            1 << 17
        } else {
            1 << 14
        }
    } else {
        let _ = T::NAME;
        if cx.thorough {
            1500
        } else {
            700
        }
    }
}
fn lens<T: Sc>(cx: &mut Ctx, all: usize) -> Vec<usize> {
    let extra = if cx.thorough { 40 } else { 8 };
    let np = maxlen::<T>(cx, false);
    let mut v = cx.lengths(all, np, extra);
    let mut p = 1024;
    while p <= maxlen::<T>(cx, true) {
        v.push(p);
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

pub fn c01(cx: &mut Ctx) {
    fn go<T: Sc>(cx: &mut Ctx, entries: &[Entry<T>], all: usize) {
        for n in lens::<T>(cx, all) {
            if cx.out_of_time() {
                return;
            }
            let reps = if n <= 64 { 3 } else { 1 };
            for rep in 0..reps {
                let kind = if rep == 0 { 0 } else { cx.rng.below(5) };
                let x = signal(cx, n, kind);
                let want = dft(&x, -1.0);
                for e in entries {
                    one::<T>(cx, "dft", e, &x, &want, &format!("signal-kind={kind}"), 1.0);
                }
            }
        }
    }
    let all = if cx.thorough { 520 } else { 200 };
    kernels::<f32>(cx);
    kernels::<f64>(cx);
    kernels::<W>(cx);
    let mut e32 = fwd::<f32>();
    e32.extend(fwd32());
    go::<f32>(cx, &e32, all);
    go::<f64>(cx, &fwd::<f64>(), all);
    go::<W>(cx, &fwd::<W>(), if cx.thorough { 300 } else { 100 });
    // long lengths, a sample of the bins
    if !nostd() {
        for n in [4099usize, 5003, 6000, 8190, 10007, 12289] {
            let x = signal(cx, n, 0);
            cx.check("dft-long", &format!("ScalarFftImpl::<f64>::fft n={n}, 24 bins"), |_| {
                let mut b: Vec<Cx<f64>> = to_c(&x);
                s::<f64>().fft(&mut b).map_err(|e| format!("{e:?}"))?;
                let bins: Vec<usize> = (0..24).map(|i| (i * 7919 + i * i) % n).collect();
                let want: Vec<C64> = bins
                    .iter()
                    .map(|&k| {
                        (0..n).fold((0.0, 0.0), |a, j| {
                            let r = root((j * k) % n, n, -1.0);
                            (a.0 + x[j].0 * r.0 - x[j].1 * r.1, a.1 + x[j].0 * r.1 + x[j].1 * r.0)
                        })
                    })
                    .collect();
                let mut got: Vec<C64> = bins.iter().map(|&k| (b[k].re, b[k].im)).collect();
                // the sampled bins may all vanish: measure deviations against the input's norm
                let norm = x.iter().map(|v| v.0 * v.0 + v.1 * v.1).sum::<f64>().sqrt();
                let mut want = want;
                got.push((norm, 0.0));
                want.push((norm, 0.0));
                near_c(&got, &want, tol::<f64>(n))
            });
        }
    }
    // the planner's tables are part of the engine
    for n in [2usize, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6, 10, 12, 48, 100] {
        cx.check("get_twiddles", &format!("FftPlanner::get_twiddles({n})"), |_| {
            let mut p = FftPlanner::<f32>::new();
            let t = p.get_twiddles(n);
            let want: Vec<C64> = (0..n / 2).map(|k| root(k, n, -1.0)).collect();
            near_c(&of_c(&t), &want, tol::<f32>(n))?;
            let mut p = FftPlanner::<f64>::new();
            let t = p.get_twiddles(n);
            near_c(&of_c(&t), &want, tol::<f64>(n))
        });
    }
}

pub fn c02(cx: &mut Ctx) {
    fn go<T: Sc>(cx: &mut Ctx, iv: &[Entry<T>], pairs: &[(Entry<T>, Entry<T>)], all: usize) {
        for n in lens::<T>(cx, all) {
            if cx.out_of_time() {
                return;
            }
            let kind = if n % 3 == 0 { 0 } else { cx.rng.below(5) };
            let x = signal(cx, n, kind);
            let want = idft(&x);
            for e in iv {
                one::<T>(cx, "idft", e, &x, &want, &format!("signal-kind={kind}"), 2.0);
            }
            for (f, g) in pairs {
                let case = format!("{} then {} {} n={n} signal-kind={kind} seed={}", f.0, g.0, T::NAME, cx.seed);
                let xi = to_c::<T>(&x);
                cx.check("round-trip", &case, |_| match (f.1)(&xi) {
                    Ok(y) => match (g.1)(&y) {
                        Ok(z) => near_c(&of_c(&z), &x, tol::<T>(n) * 4.0),
                        Err(e) => Err(format!("inverse returned Err({e:?})")),
                    },
                    Err(er) if allowed_err(n, er) => Ok(()),
                    Err(er) => Err(format!("forward returned Err({er:?})")),
                });
            }
        }
    }
    fn pairs<T: Sc>(f: Vec<Entry<T>>, ff: Vec<Entry<T>>, i: Vec<Entry<T>>, fi: Vec<Entry<T>>) -> Vec<(Entry<T>, Entry<T>)> {
        // pair every forward entry with some inverse entry and the other way round
        let mut out = vec![];
        let mut fs: Vec<Entry<T>> = f.into_iter().chain(ff).collect();
        let mut is: Vec<Entry<T>> = i.into_iter().chain(fi).collect();
        while let (Some(a), b) = (fs.pop(), is.pop()) {
            match b {
                Some(b) => out.push((a, b)),
                None => out.push((a, inp("ScalarFftImpl::ifft", |x| s::<T>().ifft(x)))),
            }
        }
        out
    }
    let all = if cx.thorough { 400 } else { 130 };
    let mut f = fwd::<f32>();
    f.extend(fwd32());
    let mut i = inv::<f32>();
    i.extend(inv32());
    let mut ff = forms::<f32>(false);
    ff.extend(forms32(false));
    let mut fi = forms::<f32>(true);
    fi.extend(forms32(true));
    let mut iv = inv::<f32>();
    iv.extend(inv32());
    iv.extend(forms::<f32>(true));
    iv.extend(forms32(true));
    go::<f32>(cx, &iv, &pairs(f, ff, i, fi), all);
    let mut iv = inv::<f64>();
    iv.extend(forms::<f64>(true));
    go::<f64>(cx, &iv, &pairs(fwd(), forms(false), inv(), forms(true)), all);
    let mut iv = inv::<W>();
    iv.extend(forms::<W>(true));
    go::<W>(cx, &iv, &pairs(fwd(), forms(false), inv(), forms(true)), all / 2);
    // inverse keeps working when the parallel decision flips
    #[cfg(feature = "cfg_full")]
    {
        for thr in [1usize, 7, 64, 1 << 20] {
            set_parallel_fft_threshold(thr);
            for n in [1usize, 2, 5, 8, 31, 64, 100, 256] {
                let x = signal(cx, n, 0);
                let want = idft(&x);
                one::<f32>(cx, "idft", &inp("ScalarFftImpl::ifft", |x| s::<f32>().ifft(x)), &x, &want, &format!("parallel-threshold={thr}"), 2.0);
            }
        }
        set_parallel_fft_threshold(0);
    }
}

/// One operation on a reused engine; returns the result or the error.
fn run_op<T: Sc>(e: &ScalarFftImpl<T>, op: usize, x: &[Cx<T>], stride: usize) -> (Result<(), FftError>, Vec<Cx<T>>) {
    let n = x.len();
    let mut v = x.to_vec();
    let r = match op % 14 {
        0 => e.fft(&mut v),
        1 => e.ifft(&mut v),
        2 => e.stockham_fft(&mut v),
        3 => e.fft_with_strategy(&mut v, FftStrategy::Radix4),
        4 => e.fft_with_strategy(&mut v, FftStrategy::Auto),
        5 => {
            let (mut a, mut b) = split_of(x);
            let r = e.fft_split(&mut a, &mut b);
            v = join(&a, &b);
            r
        }
        6 => {
            let (mut a, mut b) = split_of(x);
            let r = e.ifft_split(&mut a, &mut b);
            v = join(&a, &b);
            r
        }
        7 => e.fft_strided_alloc(&mut v, stride),
        8 => e.ifft_strided_alloc(&mut v, stride),
        9 => {
            let mut o = vec![Complex::new(T::of(0.25), T::of(0.5)); n];
            let r = e.fft_out_of_place_strided(x, stride, &mut o, stride);
            v = o;
            r
        }
        10 => {
            let mut o = vec![Complex::new(T::of(0.25), T::of(0.5)); n];
            let r = e.ifft_out_of_place_strided(x, stride, &mut o, stride);
            v = o;
            r
        }
        11 => {
            let mut sc = vec![Complex::new(T::of(3.0), T::of(4.0)); if stride == 0 { 3 } else { n / stride }];
            e.fft_strided(&mut v, stride, &mut sc)
        }
        12 => {
            let mut sc = vec![Complex::new(T::of(3.0), T::of(4.0)); if stride == 0 { 3 } else { n / stride }];
            e.ifft_strided(&mut v, stride, &mut sc)
        }
        _ => {
            #[cfg(not(feature = "cfg_nostd"))]
            {
                e.fft_radix4(&mut v)
            }
            #[cfg(feature = "cfg_nostd")]
            {
                e.fft(&mut v)
            }
        }
    };
    (r, v)
}

fn same<T: Sc>(a: &(Result<(), FftError>, Vec<Cx<T>>), b: &(Result<(), FftError>, Vec<Cx<T>>), what: &str) -> Result<(), String> {
    if a.0 != b.0 {
        return Err(format!("{what}: reused engine returned {:?}, fresh engine {:?}", a.0, b.0));
    }
    let (x, y) = (of_c(&a.1), of_c(&b.1));
    if x.iter().zip(&y).all(|(p, q)| (p.0 == q.0 || (p.0.is_nan() && q.0.is_nan())) && (p.1 == q.1 || (p.1.is_nan() && q.1.is_nan()))) {
        return Ok(());
    }
    near_c(&x, &y, 2e-5).map_err(|e| format!("{what}: reused engine differs from a fresh one (contract value = fresh): {e}"))
}

pub fn c03_fft(cx: &mut Ctx) {
    fn hist<T: Sc>(cx: &mut Ctx, rounds: usize) {
        let pool: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 48, 60, 64, 65, 100, 127, 128, 129, 200, 256, 500, 512, 1024];
        for round in 0..rounds {
            if cx.out_of_time() {
                return;
            }
            let e = s::<T>();
            let len = cx.rng.range(2, 10);
            let mut hist = String::new();
            for step in 0..len {
                let n = match cx.rng.below(4) {
                    0 => 1usize << cx.rng.range(0, 10),
                    1 => cx.rng.range(1, 70),
                    _ => pool[cx.rng.below(pool.len())],
                };
                let op = cx.rng.below(14);
                let stride = cx.rng.below(5);
                let poison = step + 1 < len && cx.rng.below(4) == 0;
                let mut x = to_c::<T>(&rand_c(&mut cx.rng, n));
                if poison {
                    for c in x.iter_mut() {
                        *c = Complex::new(T::of(f64::NAN), T::of(f64::INFINITY));
                    }
                }
                hist.push_str(&format!("[op{op} n={n} stride={stride}{}] ", if poison { " NaN-data" } else { "" }));
                let h = hist.clone();
                let case = format!("{} round={round} history {h}seed={}", T::NAME, cx.seed);
                let ok = cx.check("engine-history", &case, |_| {
                    let got = run_op(&e, op, &x, stride);
                    let want = run_op(&s::<T>(), op, &x, stride);
                    if poison {
                        return if got.0 == want.0 { Ok(()) } else { Err(format!("reused engine {:?}, fresh {:?}", got.0, want.0)) };
                    }
                    same(&got, &want, "last step")
                });
                if !ok {
                    break;
                }
            }
        }
    }
    // every ordered pair of lengths, smaller after larger and the other way round
    fn pairs<T: Sc>(cx: &mut Ctx) {
        let ls = [1usize, 2, 3, 5, 8, 16, 17, 20, 32, 33, 48, 64, 96, 128, 256, 300];
        for &a in &ls {
            for &b in &ls {
                for (oa, ob) in [(0, 0), (0, 2), (5, 0), (2, 5), (1, 1), (7, 0), (0, 7), (9, 9), (6, 6), (13, 0)] {
                    let st = cx.rng.range(1, 2);
                    let xa = to_c::<T>(&rand_c(&mut cx.rng, a * st));
                    let xb = to_c::<T>(&rand_c(&mut cx.rng, b * st));
                    cx.check("engine-history", &format!("{} op{oa} n={} then op{ob} n={} stride {st}", T::NAME, a * st, b * st), |_| {
                        let e = s::<T>();
                        let _ = run_op(&e, oa, &xa, st);
                        same(&run_op(&e, ob, &xb, st), &run_op(&s::<T>(), ob, &xb, st), "second transform")
                    });
                }
            }
        }
    }
    let r = if cx.thorough { 4000 } else { 500 };
    pairs::<f32>(cx);
    pairs::<f64>(cx);
    pairs::<W>(cx);
    hist::<f32>(cx, r);
    hist::<f64>(cx, r / 2);
    hist::<W>(cx, r / 2);
    // a planner handed over with its caches
    for n in [4usize, 12, 32, 64, 100] {
        for m in [8usize, 24, 64, 128, 7] {
            let x = to_c::<f32>(&rand_c(&mut cx.rng, n));
            cx.check("planner-history", &format!("with_planner after get_twiddles({m}), fft n={n}"), |_| {
                let mut p = FftPlanner::<f32>::new();
                let _ = p.get_twiddles(m);
                #[cfg(not(feature = "cfg_nostd"))]
                {
                    let _ = p.get_bluestein(m);
                }
                let e = ScalarFftImpl::with_planner(p);
                same(&run_op(&e, 0, &x, 1), &run_op(&s::<f32>(), 0, &x, 1), "fft")
            });
        }
    }
}

fn eqbits<T: Sc>(a: &[Cx<T>], b: &[Cx<T>]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| x.re.f().to_bits() == y.re.f().to_bits() && x.im.f().to_bits() == y.im.f().to_bits())
}

pub fn c04(cx: &mut Ctx) {
    fn go<T: Sc>(cx: &mut Ctx) {
        let nan = |n: usize| -> Vec<Cx<T>> { (0..n).map(|i| Complex::new(T::of(i as f64 + 0.5), T::of(-(i as f64)))).collect() };
        // empty input
        let mut es = fwd::<T>();
        es.extend(inv::<T>());
        for e in &es {
            cx.check("empty", &format!("{} {} n=0", e.0, T::NAME), |_| match (e.1)(&[]) {
                Err(FftError::EmptyInput) => Ok(()),
                r => Err(format!("expected Err(EmptyInput), got {:?}", r.map(|v| v.len()))),
            });
        }
        for i in [false, true] {
            for e in &forms::<T>(i) {
                cx.check("empty", &format!("{} inverse={i} {} n=0", e.0, T::NAME), |_| match (e.1)(&[]) {
                    Err(FftError::EmptyInput) => Ok(()),
                    r => Err(format!("expected Err(EmptyInput), got {:?}", r.map(|v| v.len()))),
                });
            }
        }
        // any length succeeds (std) or is refused unchanged (no_std)
        for n in 1..=70usize {
            for inverse in [false, true] {
                let x = nan(n);
                cx.check("total", &format!("fft/ifft {} n={n} inverse={inverse}", T::NAME), |_| {
                    let mut v = x.clone();
                    let r = if inverse { s::<T>().ifft(&mut v) } else { s::<T>().fft(&mut v) };
                    let (mut re, mut im) = split_of(&x);
                    let r2 = if inverse { s::<T>().ifft_split(&mut re, &mut im) } else { s::<T>().fft_split(&mut re, &mut im) };
                    match r {
                        Ok(()) => {}
                        Err(e) if allowed_err(n, e) => {
                            if !eqbits(&v, &x) {
                                return Err("refused the length but changed the data".into());
                            }
                        }
                        Err(e) => return Err(format!("Err({e:?})")),
                    }
                    match r2 {
                        Ok(()) => Ok(()),
                        Err(e) if allowed_err(n, e) => {
                            if eqbits(&join(&re, &im), &x) {
                                Ok(())
                            } else {
                                Err("split form refused the length but changed the data".into())
                            }
                        }
                        Err(e) => Err(format!("split form Err({e:?})")),
                    }
                });
            }
        }
        // mismatched buffers
        for a in 0..20usize {
            for b in 0..20usize {
                if a == b {
                    continue;
                }
                let x = nan(a);
                let y = nan(b);
                cx.check("mismatch", &format!("out_of_place/split {} input {a} output {b}", T::NAME), |_| {
                    for inverse in [false, true] {
                        let mut o = y.clone();
                        let r = if inverse { s::<T>().ifft_out_of_place(&x, &mut o) } else { s::<T>().fft_out_of_place(&x, &mut o) };
                        if r != Err(FftError::MismatchedLengths) || !eqbits(&o, &y) {
                            return Err(format!("out_of_place inverse={inverse}: {r:?}, output changed={}", !eqbits(&o, &y)));
                        }
                        let re: Vec<T> = x.iter().map(|c| c.re).collect();
                        let im: Vec<T> = y.iter().map(|c| c.im).collect();
                        let (mut r1, mut i1) = (re.clone(), im.clone());
                        let r = if inverse { s::<T>().ifft_split(&mut r1, &mut i1) } else { s::<T>().fft_split(&mut r1, &mut i1) };
                        if r != Err(FftError::MismatchedLengths) || r1 != re || i1 != im {
                            return Err(format!("split inverse={inverse}: {r:?}"));
                        }
                        let (mut r1, mut i1) = (re.clone(), im.clone());
                        let r = if inverse { ifft_split(&mut r1, &mut i1) } else { fft_split(&mut r1, &mut i1) };
                        if r != Err(FftError::MismatchedLengths) || r1 != re || i1 != im {
                            return Err(format!("free split inverse={inverse}: {r:?}"));
                        }
                    }
                    Ok(())
                });
                #[cfg(not(feature = "cfg_nostd"))]
                for st in [FftStrategy::Radix2, FftStrategy::Radix4, FftStrategy::SplitRadix, FftStrategy::Auto] {
                    cx.check("plan-mismatch", &format!("FftPlan {} planned {a} given {b} {st:?}", T::NAME), |_| {
                        let p = FftPlan::<T>::new(a, st);
                        let orig = nan(b);
                        for inverse in [false, true] {
                            let mut v = orig.clone();
                            let r = if inverse { p.ifft(&mut v) } else { p.fft(&mut v) };
                            if r != Err(FftError::MismatchedLengths) || !eqbits(&v, &orig) {
                                return Err(format!("inverse={inverse}: {r:?}, changed={}", !eqbits(&v, &orig)));
                            }
                            let mut o = orig.clone();
                            let inn = nan(a);
                            let r = if inverse { p.ifft_out_of_place(&inn, &mut o) } else { p.fft_out_of_place(&inn, &mut o) };
                            if r != Err(FftError::MismatchedLengths) || !eqbits(&o, &orig) {
                                return Err(format!("out_of_place(len ok, out wrong) inverse={inverse}: {r:?}"));
                            }
                            let mut o = nan(a);
                            let o0 = o.clone();
                            let r = if inverse { p.ifft_out_of_place(&orig, &mut o) } else { p.fft_out_of_place(&orig, &mut o) };
                            if r != Err(FftError::MismatchedLengths) || !eqbits(&o, &o0) {
                                return Err(format!("out_of_place(in wrong) inverse={inverse}: {r:?}"));
                            }
                            for (lr, li) in [(b, b), (a, b), (b, a)] {
                                let mut re = vec![T::of(1.5); lr];
                                let mut im = vec![T::of(2.5); li];
                                let r = if inverse { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) };
                                if r != Err(FftError::MismatchedLengths) || re.iter().any(|v| v.f() != 1.5) || im.iter().any(|v| v.f() != 2.5) {
                                    return Err(format!("split({lr},{li}) inverse={inverse}: {r:?}"));
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
        // strides
        let strides = [0usize, 1, 2, 3, 4, 5, 7, 16, 1000, usize::MAX, usize::MAX / 2 + 1, usize::MAX / 3 + 1, 1 << 63, 1 << 62];
        for len in 0..18usize {
            for sc in 0..12usize {
                for &st in &strides {
                    let x = nan(len);
                    cx.check("stride", &format!("strided {} len={len} scratch={sc} stride={st}", T::NAME), |_| {
                        for inverse in [false, true] {
                            let mut v = x.clone();
                            let mut scr = nan(sc);
                            let r = if inverse { s::<T>().ifft_strided(&mut v, st, &mut scr) } else { s::<T>().fft_strided(&mut v, st, &mut scr) };
                            let fits = st != 0 && (sc == 0 || ((sc - 1) as u128) * (st as u128) < len as u128);
                            match r {
                                Ok(()) => {
                                    if !fits {
                                        return Err(format!("inverse={inverse}: accepted although the samples do not fit"));
                                    }
                                }
                                Err(e) => {
                                    if !eqbits(&v, &x) {
                                        return Err(format!("inverse={inverse}: Err({e:?}) but data changed"));
                                    }
                                    if st == 0 && e != FftError::InvalidStride {
                                        return Err(format!("inverse={inverse}: stride 0 gave {e:?}"));
                                    }
                                    if st != 0 && !fits && e != FftError::MismatchedLengths {
                                        return Err(format!("inverse={inverse}: gave {e:?} instead of MismatchedLengths"));
                                    }
                                    if fits && !(allowed_err(sc, e) || sc == 0) {
                                        return Err(format!("inverse={inverse}: valid arguments refused with {e:?}"));
                                    }
                                }
                            }
                            let mut v = x.clone();
                            let r = if inverse { s::<T>().ifft_strided_alloc(&mut v, st) } else { s::<T>().fft_strided_alloc(&mut v, st) };
                            match r {
                                Err(e) => {
                                    if !eqbits(&v, &x) {
                                        return Err(format!("alloc inverse={inverse}: Err({e:?}) but data changed"));
                                    }
                                    if st == 0 && e != FftError::InvalidStride {
                                        return Err(format!("alloc inverse={inverse}: stride 0 gave {e:?}"));
                                    }
                                }
                                Ok(()) => {
                                    if st == 0 {
                                        return Err("alloc: stride 0 accepted".into());
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
        for a in 0..13usize {
            for b in 0..13usize {
                for &si in &[0usize, 1, 2, 3, 4, 5, usize::MAX] {
                    for &so in &[0usize, 1, 2, 3, 4, usize::MAX] {
                        let x = nan(a);
                        let y = nan(b);
                        cx.check("stride", &format!("out_of_place_strided {} in={a}/{si} out={b}/{so}", T::NAME), |_| {
                            for inverse in [false, true] {
                                let mut o = y.clone();
                                let r = if inverse {
                                    s::<T>().ifft_out_of_place_strided(&x, si, &mut o, so)
                                } else {
                                    s::<T>().fft_out_of_place_strided(&x, si, &mut o, so)
                                };
                                let want = if si == 0 || so == 0 || a % si != 0 || b % so != 0 {
                                    Some(FftError::InvalidStride)
                                } else if a / si != b / so {
                                    Some(FftError::MismatchedLengths)
                                } else if a == 0 {
                                    Some(FftError::EmptyInput)
                                } else {
                                    None
                                };
                                match (r, want) {
                                    (Ok(()), None) => {}
                                    (Err(e), None) if allowed_err(a / si, e) && eqbits(&o, &y) => {}
                                    (Err(e), Some(w)) if e == w && eqbits(&o, &y) => {}
                                    (r, w) => return Err(format!("inverse={inverse}: got {r:?}, contract {w:?}, output changed={}", !eqbits(&o, &y))),
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    go::<f32>(cx);
    go::<f64>(cx);
    go::<W>(cx);
    let mut e32 = fwd32();
    e32.extend(inv32());
    e32.extend(forms32(false));
    e32.extend(forms32(true));
    for e in &e32 {
        cx.check("empty", &format!("{} f32 n=0", e.0), |_| match (e.1)(&[]) {
            Err(FftError::EmptyInput) => Ok(()),
            r => Err(format!("expected Err(EmptyInput), got {:?}", r.map(|v| v.len()))),
        });
    }
    // the platform engine's strided forms
    for st in [0usize, 1, 2, 3, usize::MAX] {
        for len in [0usize, 1, 5, 8] {
            for sc in [0usize, 1, 2, 4, 9] {
                cx.check("stride", &format!("new_fft_impl strided len={len} scratch={sc} stride={st}"), |_| {
                    let e = new_fft_impl();
                    let x: Vec<Complex<f32>> = (0..len).map(|i| Complex::new(i as f32, 1.0)).collect();
                    let mut v = x.clone();
                    let mut scr = vec![Complex::new(0.0f32, 0.0); sc];
                    let fits = st != 0 && (sc == 0 || ((sc - 1) as u128) * (st as u128) < len as u128);
                    for inverse in [false, true] {
                        let r = if inverse { e.ifft_strided(&mut v, st, &mut scr) } else { e.fft_strided(&mut v, st, &mut scr) };
                        if !fits && (r.is_ok() || !eqbits(&v, &x)) {
                            return Err(format!("inverse={inverse}: {r:?}"));
                        }
                        v = x.clone();
                    }
                    Ok(())
                });
            }
        }
    }
    // error enumeration of the batch form: an empty item stops it with an error
    for pos in 0..3usize {
        cx.check("batch-error", &format!("batch with empty item at {pos}"), |_| {
            let mut b: Vec<Vec<Complex<f32>>> = (0..3).map(|_| vec![Complex::new(1.0, 0.0); 4]).collect();
            b[pos].clear();
            let r = batch(&s::<f32>(), &mut b);
            let r2 = batch_inverse(&s::<f32>(), &mut b);
            if r == Err(FftError::EmptyInput) && r2 == Err(FftError::EmptyInput) {
                Ok(())
            } else {
                Err(format!("{r:?} {r2:?}"))
            }
        });
    }
}

pub fn c05(cx: &mut Ctx) {
    fn go<T: Sc>(cx: &mut Ctx, dynamic: Option<fn() -> Box<dyn FftImpl<T>>>, rounds: usize) {
        for round in 0..rounds {
            if cx.out_of_time() {
                return;
            }
            let n = match round % 3 {
                0 => 1usize << cx.rng.range(0, 7),
                1 => cx.rng.range(1, 40),
                _ => cx.rng.range(1, 130),
            };
            let st = cx.rng.range(1, 6);
            let tail = cx.rng.below(st + 3);
            let len = (n - 1) * st + 1 + tail;
            let off_alloc = cx.rng.below(st);
            let x = rand_c(&mut cx.rng, len);
            let xi = to_c::<T>(&x);
            let inverse = cx.rng.bool();
            let nan_scratch = cx.rng.bool();
            let g: Vec<C64> = (0..n).map(|i| x[i * st]).collect();
            let want = if inverse { idft(&g) } else { dft(&g, -1.0) };
            // an engine that has (or has not) run something longer or shorter before
            let warm = [0, 0, 1usize << cx.rng.range(0, 8), cx.rng.range(1, 200)][cx.rng.below(4)];
            let eng = |d: bool| -> Box<dyn FftImpl<T>> {
                let e: Box<dyn FftImpl<T>> = match (d, dynamic) {
                    (true, Some(f)) => f(),
                    _ => Box::new(s::<T>()),
                };
                if warm > 0 {
                    let mut w = vec![Complex::new(T::of(3.5), T::of(-1.25)); 2 * warm];
                    let _ = e.fft_strided_alloc(&mut w, 2);
                    let _ = e.ifft_strided_alloc(&mut w, 1);
                    let _ = e.fft_out_of_place_strided(&w.clone(), 2, &mut w, 2);
                }
                e
            };
            let usedyn = cx.rng.bool();
            cx.check("strided", &format!("{} n={n} stride={st} len={len} inverse={inverse} nan_scratch={nan_scratch} dyn={usedyn} warm={warm} seed={} round={round}", T::NAME, cx.seed), |_| {
                let e = eng(usedyn);
                let mut v = xi.clone();
                let fill = if nan_scratch { T::of(f64::NAN) } else { T::of(77.0) };
                let mut scr = vec![Complex::new(fill, fill); n];
                let r = if inverse { e.ifft_strided(&mut v, st, &mut scr) } else { e.fft_strided(&mut v, st, &mut scr) };
                match r {
                    Ok(()) => {}
                    Err(er) if allowed_err(n, er) => return Ok(()),
                    Err(er) => return Err(format!("Err({er:?})")),
                }
                for i in 0..len {
                    if (i % st != 0 || i / st >= n) && (v[i].re.f() != x[i].0 || v[i].im.f() != x[i].1) {
                        return Err(format!("element {i} is not a strided sample but changed"));
                    }
                }
                let got: Vec<C64> = (0..n).map(|i| (v[i * st].re.f(), v[i * st].im.f())).collect();
                near_c(&got, &want, tol::<T>(n) * 2.0)
            });
            // allocating form: n = len/stride samples
            let len2 = n * st + off_alloc;
            let x2 = rand_c(&mut cx.rng, len2);
            let m = len2 / st;
            let g: Vec<C64> = (0..m).map(|i| x2[i * st]).collect();
            let want = if inverse { idft(&g) } else { dft(&g, -1.0) };
            cx.check("strided-alloc", &format!("{} len={len2} stride={st} inverse={inverse} dyn={usedyn} warm={warm} seed={} round={round}", T::NAME, cx.seed), |_| {
                let e = eng(usedyn);
                let mut v = to_c::<T>(&x2);
                let r = if inverse { e.ifft_strided_alloc(&mut v, st) } else { e.fft_strided_alloc(&mut v, st) };
                match r {
                    Ok(()) => {}
                    Err(er) if allowed_err(m, er) => return Ok(()),
                    Err(er) => return Err(format!("Err({er:?})")),
                }
                for i in 0..len2 {
                    if (i % st != 0 || i / st >= m) && (v[i].re.f() != x2[i].0 || v[i].im.f() != x2[i].1) {
                        return Err(format!("element {i} is not a strided sample but changed"));
                    }
                }
                let got: Vec<C64> = (0..m).map(|i| (v[i * st].re.f(), v[i * st].im.f())).collect();
                near_c(&got, &want, tol::<T>(m) * 2.0)
            });
            let so = cx.rng.range(1, 6);
            let x3 = rand_c(&mut cx.rng, n * st);
            let g: Vec<C64> = (0..n).map(|i| x3[i * st]).collect();
            let want = if inverse { idft(&g) } else { dft(&g, -1.0) };
            cx.check("out-of-place-strided", &format!("{} n={n} in_stride={st} out_stride={so} inverse={inverse} dyn={usedyn} warm={warm} seed={} round={round}", T::NAME, cx.seed), |_| {
                let e = eng(usedyn);
                let inn = to_c::<T>(&x3);
                let mut o = vec![Complex::new(T::of(5.5), T::of(-6.25)); n * so];
                let r = if inverse { e.ifft_out_of_place_strided(&inn, st, &mut o, so) } else { e.fft_out_of_place_strided(&inn, st, &mut o, so) };
                match r {
                    Ok(()) => {}
                    Err(er) if allowed_err(n, er) => return Ok(()),
                    Err(er) => return Err(format!("Err({er:?})")),
                }
                for i in 0..n * so {
                    if i % so != 0 && (o[i].re.f() != 5.5 || o[i].im.f() != -6.25) {
                        return Err(format!("output element {i} is not a multiple of the output stride but changed"));
                    }
                }
                let got: Vec<C64> = (0..n).map(|i| (o[i * so].re.f(), o[i * so].im.f())).collect();
                near_c(&got, &want, tol::<T>(n) * 2.0)
            });
        }
    }
    let r = if cx.thorough { 4000 } else { 700 };
    go::<f32>(cx, Some(new_fft_impl), r);
    go::<f64>(cx, None, r / 2);
    go::<W>(cx, None, r / 2);
}

pub fn c06(cx: &mut Ctx) {
    fn go<T: Sc>(cx: &mut Ctx, all: usize, extra: [Vec<Entry<T>>; 2]) {
        let [x0, x1] = extra;
        let mut sets = [forms::<T>(false), forms::<T>(true)];
        sets[0].extend(x0);
        sets[1].extend(x1);
        for n in lens::<T>(cx, all) {
            if n > 4096 || cx.out_of_time() {
                continue;
            }
            let kind = cx.rng.below(5);
            let x = signal(cx, n, kind);
            let xi = to_c::<T>(&x);
            for inverse in [false, true] {
                let mut base = xi.clone();
                let br = if inverse { s::<T>().ifft(&mut base) } else { s::<T>().fft(&mut base) };
                for e in &sets[inverse as usize] {
                    cx.check("form", &format!("{} {} n={n} inverse={inverse} seed={}", e.0, T::NAME, cx.seed), |_| match ((e.1)(&xi), br) {
                        (Ok(v), Ok(())) => near_c(&of_c(&v), &of_c(&base), tol::<T>(n) * 2.0),
                        (Err(a), Err(b)) if a == b => Ok(()),
                        (a, b) => Err(format!("form {:?} but in place {b:?}", a.map(|_| ()))),
                    });
                }
            }
        }
        // batches: each item independent, in order
        let rounds = if cx.thorough { 400 } else { 80 };
        for round in 0..rounds {
            let k = cx.rng.below(6);
            let same_len = cx.rng.bool();
            let n0 = cx.rng.range(1, 40);
            let items: Vec<Vec<C64>> = (0..k)
                .map(|_| {
                    let n = if same_len { n0 } else if nostd() { 1 << cx.rng.range(0, 7) } else { cx.rng.range(1, 140) };
                    rand_c(&mut cx.rng, n)
                })
                .collect();
            let lens: Vec<usize> = items.iter().map(|v| v.len()).collect();
            cx.check("batch", &format!("{} lens={lens:?} seed={} round={round}", T::NAME, cx.seed), |_| {
                for form in 0..4 {
                    let mut b: Vec<Vec<Cx<T>>> = items.iter().map(|v| to_c(v)).collect();
                    let e = s::<T>();
                    let r = match form {
                        0 => batch(&e, &mut b),
                        1 => batch_inverse(&e, &mut b),
                        2 => multi_channel(&e, &mut b),
                        _ => multi_channel_inverse(&e, &mut b),
                    };
                    if let Err(er) = r {
                        if nostd() && lens.iter().any(|n| !n.is_power_of_two()) {
                            continue;
                        }
                        return Err(format!("form {form}: Err({er:?})"));
                    }
                    if b.len() != items.len() {
                        return Err("item count changed".into());
                    }
                    for (i, it) in items.iter().enumerate() {
                        let want = if form % 2 == 0 { dft(it, -1.0) } else { idft(it) };
                        near_c(&of_c(&b[i]), &want, tol::<T>(it.len()) * 2.0).map_err(|m| format!("form {form} item {i}: {m}"))?;
                    }
                }
                Ok(())
            });
        }
    }
    let all = if cx.thorough { 400 } else { 130 };
    go::<f32>(cx, all, [forms32(false), forms32(true)]);
    go::<f64>(cx, all, [vec![], vec![]]);
    go::<W>(cx, all / 2, [vec![], vec![]]);
}

pub fn c07(cx: &mut Ctx) {
    use kofft::ndfft::*;
    fn axis(x: &[C64], dims: [usize; 3], ax: usize, want_inverse: bool) -> Vec<C64> {
        let [d, r, c] = dims;
        let idx = |i: usize, j: usize, k: usize| (i * r + j) * c + k;
        let mut out = x.to_vec();
        let n = dims[ax];
        let (a, b) = match ax {
            0 => (r, c),
            1 => (d, c),
            _ => (d, r),
        };
        for p in 0..a {
            for q in 0..b {
                let at = |t: usize| match ax {
                    0 => idx(t, p, q),
                    1 => idx(p, t, q),
                    _ => idx(p, q, t),
                };
                let line: Vec<C64> = (0..n).map(|t| x[at(t)]).collect();
                let y = if want_inverse { idft(&line) } else { dft(&line, -1.0) };
                for t in 0..n {
                    out[at(t)] = y[t];
                }
            }
        }
        out
    }
    fn go<T: Sc>(cx: &mut Ctx, rounds: usize) {
        for round in 0..rounds {
            if cx.out_of_time() {
                return;
            }
            let p2 = nostd();
            let mut dim = |cx: &mut Ctx, m: usize| if p2 || cx.rng.below(3) == 0 { 1usize << cx.rng.range(0, 4) } else { cx.rng.range(1, m) };
            let (d, r, c) = (dim(cx, 9), dim(cx, 12), dim(cx, 12));
            let x2 = rand_c(&mut cx.rng, r * c);
            let want = axis(&axis(&x2, [1, r, c], 2, false), [1, r, c], 1, false);
            cx.check("2d", &format!("{} rows={r} cols={c} seed={} round={round}", T::NAME, cx.seed), |_| {
                let mut v = to_c::<T>(&x2);
                let mut scr = vec![Complex::new(T::of(f64::NAN), T::of(1.0)); r];
                fft2d_inplace(&mut v, r, c, &s::<T>(), &mut scr).map_err(|e| format!("Err({e:?})"))?;
                near_c(&of_c(&v), &want, tol::<T>(r * c) * 4.0)
            });
            let x3 = rand_c(&mut cx.rng, d * r * c);
            let mut want = x3.clone();
            for ax in 0..3 {
                want = axis(&want, [d, r, c], ax, false);
            }
            cx.check("3d", &format!("{} depth={d} rows={r} cols={c} seed={} round={round}", T::NAME, cx.seed), |_| {
                let mut v = to_c::<T>(&x3);
                let nanc = Complex::new(T::of(f64::NAN), T::of(1.0));
                let (mut a, mut b, mut e) = (vec![nanc; d], vec![nanc; r], vec![nanc; c]);
                let mut sc = Fft3dScratch { tube: &mut a, row: &mut b, col: &mut e };
                fft3d_inplace(&mut v, d, r, c, &s::<T>(), &mut sc).map_err(|e| format!("Err({e:?})"))?;
                near_c(&of_c(&v), &want, tol::<T>(d * r * c) * 4.0)
            });
            // inverse along both axes by the strided/in-place inverse
            cx.check("2d-inverse", &format!("{} rows={r} cols={c} seed={} round={round}", T::NAME, cx.seed), |_| {
                let e = s::<T>();
                let mut v = to_c::<T>(&x2);
                let mut scr = vec![Complex::new(T::of(0.0), T::of(1.0)); r];
                fft2d_inplace(&mut v, r, c, &e, &mut scr).map_err(|e| format!("Err({e:?})"))?;
                for i in 0..r {
                    e.ifft(&mut v[i * c..(i + 1) * c]).map_err(|e| format!("{e:?}"))?;
                }
                for j in 0..c {
                    e.ifft_strided(&mut v[j..], c, &mut scr).map_err(|e| format!("{e:?}"))?;
                }
                near_c(&of_c(&v), &x2, tol::<T>(r * c) * 8.0)
            });
            // flattening keeps order
            cx.check("flatten", &format!("{} {d}x{r}x{c} seed={} round={round}", T::NAME, cx.seed), |_| {
                let v2: Vec<Vec<Cx<T>>> = (0..r).map(|i| to_c(&x2[i * c..(i + 1) * c])).collect();
                let (f, a, b) = flatten_2d(v2).map_err(|e| format!("{e:?}"))?;
                if (a, b) != (r, c) || of_c(&f) != x2 {
                    return Err("flatten_2d reordered or misreported".into());
                }
                let v3: Vec<Vec<Vec<Cx<T>>>> =
                    (0..d).map(|k| (0..r).map(|i| to_c(&x3[(k * r + i) * c..(k * r + i + 1) * c])).collect()).collect();
                let (f, a, b, e) = flatten_3d(v3).map_err(|e| format!("{e:?}"))?;
                if (a, b, e) != (d, r, c) || of_c(&f) != x3 {
                    return Err("flatten_3d reordered or misreported".into());
                }
                Ok(())
            });
            // ragged
            let bad = cx.rng.below(r);
            let badp = cx.rng.below(d);
            cx.check("flatten-ragged", &format!("{} {d}x{r}x{c} bad row {bad} plane {badp}", T::NAME), |_| {
                let mut v2: Vec<Vec<Cx<T>>> = (0..r).map(|i| to_c(&x2[i * c..(i + 1) * c])).collect();
                v2[bad].pop();
                if r > 1 && flatten_2d(v2).is_ok() {
                    return Err("flatten_2d accepted a ragged row".into());
                }
                let mut v3: Vec<Vec<Vec<Cx<T>>>> =
                    (0..d).map(|k| (0..r).map(|i| to_c(&x3[(k * r + i) * c..(k * r + i + 1) * c])).collect()).collect();
                v3[badp][bad].pop();
                if d * r > 1 && flatten_3d(v3.clone()).is_ok() {
                    return Err("flatten_3d accepted a ragged row".into());
                }
                v3[badp].pop();
                if d > 1 && flatten_3d(v3).is_ok() {
                    return Err("flatten_3d accepted a short plane".into());
                }
                Ok(())
            });
            // shapes that do not match are refused unchanged
            let (dd, rr, cc) = (cx.rng.below(6), cx.rng.below(6), cx.rng.below(6));
            let n = cx.rng.below(40);
            let (s0, s1, s2) = (cx.rng.below(6), cx.rng.below(6), cx.rng.below(6));
            let huge = cx.rng.below(4) == 0;
            cx.check("shape", &format!("{} len={n} shape {dd}x{rr}x{cc} scratch {s0},{s1},{s2} huge={huge}", T::NAME), |_| {
                let x: Vec<Cx<T>> = (0..n).map(|i| Complex::new(T::of(i as f64), T::of(1.0))).collect();
                let (dd, rr, cc) = if huge { (usize::MAX, 1 << 33, 1 << 32) } else { (dd, rr, cc) };
                let mut v = x.clone();
                let mut scr = vec![Complex::new(T::of(0.0), T::of(1.0)); s0];
                let r = fft2d_inplace(&mut v, rr, cc, &s::<T>(), &mut scr);
                let shape_ok = (rr as u128) * (cc as u128) == n as u128;
                let ok = shape_ok && (rr == 0 || cc == 0 || s0 == rr);
                if !ok && (r != Err(FftError::MismatchedLengths) || !eqbits(&v, &x)) {
                    return Err(format!("2d: {r:?}, changed={}", !eqbits(&v, &x)));
                }
                if ok && r.is_err() && !(nostd()) {
                    return Err(format!("2d: valid shape refused {r:?}"));
                }
                let mut v = x.clone();
                let z = Complex::new(T::of(0.0), T::of(1.0));
                let (mut a, mut b, mut e) = (vec![z; s0], vec![z; s1], vec![z; s2]);
                let mut sc = Fft3dScratch { tube: &mut a, row: &mut b, col: &mut e };
                let r = fft3d_inplace(&mut v, dd, rr, cc, &s::<T>(), &mut sc);
                let shape_ok = if huge { false } else { dd * rr * cc == n };
                let ok = shape_ok && (dd == 0 || rr == 0 || cc == 0 || (s0 == dd && s1 == rr && s2 == cc));
                if !ok && (r != Err(FftError::MismatchedLengths) || !eqbits(&v, &x)) {
                    return Err(format!("3d: {r:?}, changed={}", !eqbits(&v, &x)));
                }
                if ok && r.is_err() && !(nostd()) {
                    return Err(format!("3d: valid shape refused {r:?}"));
                }
                Ok(())
            });
        }
    }
    let r = if cx.thorough { 1500 } else { 250 };
    go::<f32>(cx, r);
    go::<f64>(cx, r / 2);
    go::<W>(cx, r / 3);
    // matching shape, exactly one scratch wrong
    for (dd, rr, cc) in [(2usize, 3usize, 4usize), (4, 2, 2), (1, 5, 3), (3, 3, 3)] {
        for which in 0..3 {
            for delta in [-1i32, 1, 3] {
                cx.check("shape", &format!("3d {dd}x{rr}x{cc} scratch {which} off by {delta}"), |_| {
                    let n = dd * rr * cc;
                    let x: Vec<Complex<f32>> = (0..n).map(|i| Complex::new(i as f32, 1.0)).collect();
                    let mut v = x.clone();
                    let mut l = [dd, rr, cc];
                    l[which] = (l[which] as i32 + delta) as usize;
                    let z = Complex::new(0.0, 0.0);
                    let (mut a, mut b, mut e) = (vec![z; l[0]], vec![z; l[1]], vec![z; l[2]]);
                    let mut sc = Fft3dScratch { tube: &mut a, row: &mut b, col: &mut e };
                    let r = fft3d_inplace(&mut v, dd, rr, cc, &s::<f32>(), &mut sc);
                    if r == Err(FftError::MismatchedLengths) && eqbits(&v, &x) {
                        Ok(())
                    } else {
                        Err(format!("{r:?}"))
                    }
                });
            }
        }
    }
    for (r, c) in [(4usize, 3usize), (5, 1), (1, 5)] {
        for sc in 0..8usize {
            if sc == r {
                continue;
            }
            cx.check("shape", &format!("2d {r}x{c} scratch {sc}"), |_| {
                let x: Vec<Complex<f32>> = (0..r * c).map(|i| Complex::new(i as f32, 1.0)).collect();
                let mut v = x.clone();
                let mut scr = vec![Complex::new(0.0, 0.0); sc];
                let e = fft2d_inplace(&mut v, r, c, &s::<f32>(), &mut scr);
                if e == Err(FftError::MismatchedLengths) && eqbits(&v, &x) {
                    Ok(())
                } else {
                    Err(format!("{e:?}"))
                }
            });
        }
    }
}

pub fn c09(cx: &mut Ctx) {
    fn one_n<const N: usize>(cx: &mut Ctx, reps: usize) {
        for rep in 0..reps {
            let kind = rep;
            let x: Vec<C64> = if N == 0 { vec![] } else { signal(cx, N, kind) };
            let arr = || -> [Complex<f32>; N] {
                let mut a = [Complex::new(0.0f32, 0.0); N];
                for i in 0..N {
                    a[i] = Complex::new(x[i].0 as f32, x[i].1 as f32);
                }
                a
            };
            cx.check("stack", &format!("fft_inplace_stack<{N}> signal-kind={kind} seed={}", cx.seed), |_| {
                let a0 = arr();
                let mut a = a0;
                let r = fft_inplace_stack(&mut a);
                let mut b = a0;
                let ri = ifft_inplace_stack(&mut b);
                if N == 0 {
                    return if r == Err(FftError::EmptyInput) && ri == Err(FftError::EmptyInput) { Ok(()) } else { Err(format!("{r:?} {ri:?}")) };
                }
                if !N.is_power_of_two() {
                    return if r == Err(FftError::NonPowerOfTwoNoStd) && ri == r && eqbits(&a, &a0) && eqbits(&b, &a0) {
                        Ok(())
                    } else {
                        Err(format!("{r:?} {ri:?} changed={} {}", !eqbits(&a, &a0), !eqbits(&b, &a0)))
                    };
                }
                r.map_err(|e| format!("Err({e:?})"))?;
                ri.map_err(|e| format!("inverse Err({e:?})"))?;
                near_c(&of_c(&a), &dft(&x, -1.0), tol::<f32>(N))?;
                near_c(&of_c(&b), &idft(&x), tol::<f32>(N)).map_err(|m| format!("inverse: {m}"))?;
                ifft_inplace_stack(&mut a).map_err(|e| format!("{e:?}"))?;
                near_c(&of_c(&a), &x, tol::<f32>(N) * 2.0).map_err(|m| format!("round trip: {m}"))?;
                let mut h = a0.to_vec();
                s::<f32>().fft(&mut h).map_err(|e| format!("{e:?}"))?;
                let mut a = a0;
                fft_inplace_stack(&mut a).ok();
                near_c(&of_c(&a), &of_c(&h), tol::<f32>(N) * 2.0).map_err(|m| format!("vs heap: {m}"))
            });
        }
    }
    let reps = if cx.thorough { 40 } else { 8 };
    macro_rules! each { ($($n:literal)*) => { $( one_n::<$n>(cx, reps); )* } }
    each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 27 31 32 33 36 40 48 56 60 63 64 65 66 72 80 96 100 120 126 127 128 129 130 144 160 192 200 240 255 256 257 258 264 272 320 384 511 512 513 516 640 768 1000 1023 1024 1025 1030 1536 2048 2049 3000 3072 4096 4097 6144 8192);
}

pub fn c28(cx: &mut Ctx) {
    // the decision itself is decided by the proof; here: the observable side
    #[cfg(feature = "cfg_full")]
    {
        let mut lens: Vec<usize> = (1..=40).collect();
        lens.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 1024, 2048, 4096]);
        for &n in &lens {
            let x = signal(cx, n, 0);
            let xi = to_c::<f32>(&x);
            let mut base = xi.clone();
            set_parallel_fft_threshold(usize::MAX);
            let seq = (s::<f32>().ifft(&mut base), {
                let mut f = xi.clone();
                let _ = s::<f32>().fft(&mut f);
                f
            });
            for thr in [1usize, 2, n.saturating_sub(1).max(1), n, n + 1, 16, 1 << 30] {
                cx.check("parallel-equals-sequential", &format!("n={n} threshold={thr} seed={}", cx.seed), |_| {
                    set_parallel_fft_threshold(thr);
                    set_parallel_fft_block_size(thr);
                    set_parallel_fft_threads(thr.min(16));
                    let mut v = xi.clone();
                    let r = s::<f32>().ifft(&mut v);
                    let mut f = xi.clone();
                    let rf = s::<f32>().fft(&mut f);
                    let mut p = xi.clone();
                    let rp = ifft_parallel(&mut p);
                    let mut q = xi.clone();
                    let rq = fft_parallel(&mut q);
                    set_parallel_fft_threshold(0);
                    set_parallel_fft_block_size(0);
                    set_parallel_fft_threads(0);
                    if r != seq.0 || rf.is_err() || rp.is_err() || rq.is_err() {
                        return Err(format!("{r:?} {rf:?} {rp:?} {rq:?}"));
                    }
                    near_c(&of_c(&v), &of_c(&base), 1e-5)?;
                    near_c(&of_c(&f), &of_c(&seq.1), 1e-5)?;
                    near_c(&of_c(&p), &of_c(&base), 1e-5)?;
                    near_c(&of_c(&q), &of_c(&seq.1), 1e-5)?;
                    near_c(&of_c(&v), &idft(&x), tol::<f32>(n) * 2.0)
                });
            }
        }
        set_parallel_fft_threshold(0);
        // knobs
        for v in [0usize, 1, 7, 4096, usize::MAX] {
            cx.check("knobs", &format!("setters with {v}"), |_| {
                set_parallel_fft_l1_cache(v);
                set_parallel_fft_per_core_work(v.min(1 << 20));
                set_parallel_fft_threshold(3);
                let x = [(1.0, 0.5), (0.25, -1.0), (2.0, 0.0), (0.0, 1.0)];
                let mut a = to_c::<f32>(&x);
                let r = s::<f32>().ifft(&mut a);
                set_parallel_fft_l1_cache(0);
                set_parallel_fft_per_core_work(0);
                set_parallel_fft_threshold(0);
                r.map_err(|e| format!("{e:?}"))?;
                near_c(&of_c(&a), &idft(&x), 1e-4)
            });
        }
    }
    #[cfg(not(feature = "cfg_full"))]
    {
        for n in [1usize, 2, 5, 16, 64, 100] {
            let x = signal(cx, n, 0);
            cx.check("parallel-entry-equals-sequential", &format!("n={n}"), |_| {
                let mut a = to_c::<f32>(&x);
                let mut b = a.clone();
                let (ra, rb) = (fft_parallel(&mut a), s::<f32>().fft(&mut b));
                if ra != rb {
                    return Err(format!("{ra:?} {rb:?}"));
                }
                near_c(&of_c(&a), &of_c(&b), 1e-5)
            });
        }
    }
}
