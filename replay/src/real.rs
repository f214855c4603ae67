//! Monitors for the real-valued transforms: C03 (planners), C08, C10-C18.
use crate::ctx::*;
use crate::num::*;
use kofft::fft::*;
use kofft::num::{Complex, Complex32};
use kofft::rfft::*;
use std::f64::consts::PI;

fn nostd() -> bool {
    cfg!(feature = "cfg_nostd")
}
pub trait Rs: Sc + RealFftNum {}
impl Rs for f32 {}
impl Rs for f64 {}

type REntry<T> = (&'static str, Box<dyn Fn(&[T]) -> Result<Vec<Complex<T>>, FftError>>);
type IEntry<T> = (&'static str, Box<dyn Fn(&[Complex<T>], usize) -> Result<Vec<T>, FftError>>);

fn junk<T: Sc>(n: usize) -> Vec<Complex<T>> {
    vec![Complex::new(T::of(f64::NAN), T::of(3.0)); n]
}
fn rf<T: Sc>(n: &'static str, f: impl Fn(&mut [T], &mut [Complex<T>]) -> Result<(), FftError> + 'static) -> REntry<T> {
    (
        n,
        Box::new(move |x| {
            let mut v = x.to_vec();
            let mut o = junk(x.len() / 2 + 1);
            f(&mut v, &mut o)?;
            Ok(o)
        }),
    )
}
fn irf<T: Sc>(n: &'static str, f: impl Fn(&mut [Complex<T>], &mut [T]) -> Result<(), FftError> + 'static) -> IEntry<T> {
    (
        n,
        Box::new(move |x, n| {
            let mut v = x.to_vec();
            let mut o = vec![T::of(f64::NAN); n];
            f(&mut v, &mut o)?;
            Ok(o)
        }),
    )
}
fn sc<T: Sc>() -> ScalarFftImpl<T> {
    ScalarFftImpl::<T>::default()
}
fn rffts<T: Rs>() -> Vec<REntry<T>> {
    vec![
        rf("RealFftImpl::rfft", |x, o| sc::<T>().rfft(x, o)),
        rf("RealFftImpl::rfft_with_scratch", |x, o| {
            let mut s = junk(x.len() / 2);
            sc::<T>().rfft_with_scratch(x, o, &mut s)
        }),
        rf("RfftPlanner::rfft", |x, o| RfftPlanner::<T>::new().rfft(&sc::<T>(), x, o)),
        rf("RfftPlanner::rfft_with_scratch", |x, o| {
            let mut s = junk(x.len() / 2);
            RfftPlanner::<T>::new().rfft_with_scratch(&sc::<T>(), x, o, &mut s)
        }),
        rf("rfft_packed", |x, o| {
            let mut s = junk(x.len() / 2);
            rfft_packed(&mut RfftPlanner::<T>::new(), &sc::<T>(), x, o, &mut s)
        }),
    ]
}
fn irffts<T: Rs>() -> Vec<IEntry<T>> {
    vec![
        irf("RealFftImpl::irfft", |x, o| sc::<T>().irfft(x, o)),
        irf("RealFftImpl::irfft_with_scratch", |x, o| {
            let mut s = junk(o.len() / 2);
            sc::<T>().irfft_with_scratch(x, o, &mut s)
        }),
        irf("RfftPlanner::irfft", |x, o| RfftPlanner::<T>::new().irfft(&sc::<T>(), x, o)),
        irf("RfftPlanner::irfft_with_scratch", |x, o| {
            let mut s = junk(o.len() / 2);
            RfftPlanner::<T>::new().irfft_with_scratch(&sc::<T>(), x, o, &mut s)
        }),
        irf("irfft_packed", |x, o| {
            let mut s = junk(o.len() / 2);
            irfft_packed(&mut RfftPlanner::<T>::new(), &sc::<T>(), x, o, &mut s)
        }),
    ]
}
fn allowed(m: usize, e: FftError) -> bool {
    nostd() && !m.is_power_of_two() && e == FftError::NonPowerOfTwoNoStd
}
fn bits<T: Sc>(x: &[Complex<T>]) -> Vec<(u64, u64)> {
    x.iter().map(|c| (c.re.f().to_bits(), c.im.f().to_bits())).collect()
}
fn bits_r<T: Sc>(x: &[T]) -> Vec<u64> {
    x.iter().map(|c| c.f().to_bits()).collect()
}

pub fn c08(cx: &mut Ctx) {
    fn go<T: Rs>(cx: &mut Ctx, maxp: usize) {
        let fe = rffts::<T>();
        let ie = irffts::<T>();
        let all = if cx.thorough { 400 } else { 140 };
        let top = if cx.thorough { 1400 } else { 700 };
        let mut ls = cx.lengths(all, top, if cx.thorough { 40 } else { 8 });
        let mut p = 1024;
        while p <= maxp {
            ls.push(p);
            p *= 2;
        }
        for n in ls {
            if cx.out_of_time() {
                return;
            }
            let x = rand_r(&mut cx.rng, n);
            let xi: Vec<T> = x.iter().map(|&v| T::of(v)).collect();
            let m = n / 2;
            if n % 2 == 1 {
                for (name, f) in &fe {
                    cx.check("odd", &format!("{name} {} n={n}", T::NAME), |_| match f(&xi) {
                        Err(FftError::InvalidValue) => Ok(()),
                        r => Err(format!("odd length gave {:?}", r.map(|v| v.len()))),
                    });
                }
                for (name, f) in &ie {
                    cx.check("odd", &format!("{name} {} n={n}", T::NAME), |_| match f(&junk::<T>(m + 1), n) {
                        Err(FftError::InvalidValue) => Ok(()),
                        r => Err(format!("odd length gave {:?}", r.map(|v| v.len()))),
                    });
                }
                continue;
            }
            let cplx: Vec<C64> = x.iter().map(|&v| (v, 0.0)).collect();
            let want = dft(&cplx, -1.0)[..m + 1].to_vec();
            for (name, f) in &fe {
                cx.check("rfft", &format!("{name} {} n={n} seed={}", T::NAME, cx.seed), |_| match f(&xi) {
                    Ok(y) => near_c(&of_c(&y), &want, tol::<T>(n) * 2.0),
                    Err(e) if allowed(m, e) => Ok(()),
                    Err(e) => Err(format!("Err({e:?})")),
                });
            }
            let spec = to_c::<T>(&want);
            for (name, f) in &ie {
                cx.check("irfft", &format!("{name} {} n={n} seed={}", T::NAME, cx.seed), |_| match f(&spec, n) {
                    Ok(y) => near_r(&y.iter().map(|v| v.f()).collect::<Vec<_>>(), &x, tol::<T>(n) * 4.0),
                    Err(e) if allowed(m, e) => Ok(()),
                    Err(e) => Err(format!("Err({e:?})")),
                });
            }
            for i in 0..fe.len() {
                cx.check("rfft-irfft", &format!("{} then {} {} n={n} seed={}", fe[i].0, ie[(i + n) % ie.len()].0, T::NAME, cx.seed), |_| match fe[i].1(&xi) {
                    Ok(y) => {
                        let z = ie[(i + n) % ie.len()].1(&y, n).map_err(|e| format!("inverse Err({e:?})"))?;
                        near_r(&z.iter().map(|v| v.f()).collect::<Vec<_>>(), &x, tol::<T>(n) * 4.0)
                    }
                    Err(e) if allowed(m, e) => Ok(()),
                    Err(e) => Err(format!("Err({e:?})")),
                });
            }
        }
        // argument errors
        for n in 0..=12usize {
            for ol in 0..=8usize {
                for sl in 0..=7usize {
                    cx.check("lengths", &format!("{} n={n} spectrum len={ol} scratch len={sl}", T::NAME), |_| {
                        let m = n / 2;
                        let base = if n == 0 {
                            Some(FftError::EmptyInput)
                        } else if n % 2 == 1 {
                            Some(FftError::InvalidValue)
                        } else if ol != m + 1 {
                            Some(FftError::MismatchedLengths)
                        } else {
                            None
                        };
                        let with = base.or(if sl < m { Some(FftError::MismatchedLengths) } else { None });
                        let chk = |what: &str, r: Result<(), FftError>, e: Option<FftError>| match (r, e) {
                            (Ok(()), None) => Ok(()),
                            (Err(a), Some(b)) if a == b => Ok(()),
                            (Err(a), None) if allowed(m, a) => Ok(()),
                            (r, e) => Err(format!("{what}: got {r:?}, contract {e:?}")),
                        };
                        let mk = || (vec![T::of(1.0); n], vec![Complex::<T>::zero(); ol], vec![Complex::<T>::zero(); sl]);
                        let (mut x, mut o, mut s) = mk();
                        chk("rfft", sc::<T>().rfft(&mut x, &mut o), base)?;
                        let (mut x, mut o, _) = mk();
                        chk("planner.rfft", RfftPlanner::<T>::new().rfft(&sc::<T>(), &mut x, &mut o), base)?;
                        let (mut x, mut o, _) = mk();
                        chk("irfft", sc::<T>().irfft(&mut o, &mut x), base)?;
                        let (mut x2, mut o2, _) = mk();
                        chk("planner.irfft", RfftPlanner::<T>::new().irfft(&sc::<T>(), &mut o2, &mut x2), base)?;
                        x.fill(T::of(1.0));
                        chk("rfft_with_scratch", sc::<T>().rfft_with_scratch(&mut x, &mut o, &mut s), with)?;
                        chk("irfft_with_scratch", sc::<T>().irfft_with_scratch(&mut o, &mut x, &mut s), with)?;
                        let mut p = RfftPlanner::<T>::new();
                        chk("rfft_packed", rfft_packed(&mut p, &sc::<T>(), &mut x, &mut o, &mut s), with)?;
                        chk("irfft_packed", irfft_packed(&mut p, &sc::<T>(), &mut o, &mut x, &mut s), with)?;
                        Ok(())
                    });
                }
            }
        }
        // tables
        for m in [1usize, 2, 3, 4, 5, 8, 16, 32, 64, 100, 128, 256, 512] {
            cx.check("tables", &format!("RfftPlanner<{}> tables m={m}", T::NAME), |_| {
                let mut p = RfftPlanner::<T>::new();
                let want: Vec<C64> = (0..m).map(|k| root(k, 2 * m, -1.0)).collect();
                near_c(&of_c(&p.get_twiddles(m)), &want, tol::<T>(m))?;
                near_c(&of_c(&p.get_pack_twiddles(m)), &want, tol::<T>(m))?;
                near_c(&of_c(&p.get_twiddles(m)), &want, tol::<T>(m))
            });
        }
    }
    let mp = if cx.thorough { 1 << 15 } else { 1 << 12 };
    go::<f32>(cx, mp);
    go::<f64>(cx, mp);
    fn st<const N: usize, const M: usize>(cx: &mut Ctx) {
        for rep in 0..3 {
            let x = rand_r(&mut cx.rng, N);
            cx.check("stack", &format!("rfft_stack/irfft_stack <{N},{M}> rep={rep} seed={}", cx.seed), |_| {
                let mut a = [0f32; N];
                for i in 0..N {
                    a[i] = x[i] as f32;
                }
                let mut o = [Complex32::new(f32::NAN, 0.0); M];
                let r = rfft_stack(&a, &mut o);
                let mut b = [f32::NAN; N];
                let spec0 = [Complex32::new(1.0, 0.0); M];
                let ri = irfft_stack(&spec0, &mut b);
                let want = if N == 0 {
                    Some(FftError::EmptyInput)
                } else if M != N / 2 + 1 {
                    Some(FftError::MismatchedLengths)
                } else if !N.is_power_of_two() {
                    Some(FftError::NonPowerOfTwoNoStd)
                } else {
                    None
                };
                if r.err() != want || ri.err() != want {
                    return Err(format!("got {r:?} / {ri:?}, contract {want:?}"));
                }
                if want.is_some() {
                    return Ok(());
                }
                let cplx: Vec<C64> = x.iter().map(|&v| (v, 0.0)).collect();
                near_c(&of_c(&o), &dft(&cplx, -1.0)[..M], tol::<f32>(N) * 2.0)?;
                if N > 1 || M == 1 {
                    irfft_stack(&o, &mut b).map_err(|e| format!("{e:?}"))?;
                    near_r(&v64(&b), &x, tol::<f32>(N) * 4.0)?;
                }
                Ok(())
            });
        }
    }
    st::<0, 1>(cx);
    st::<1, 1>(cx);
    st::<2, 2>(cx);
    st::<2, 1>(cx);
    st::<3, 2>(cx);
    st::<4, 3>(cx);
    st::<4, 4>(cx);
    st::<4, 2>(cx);
    st::<6, 4>(cx);
    st::<8, 5>(cx);
    st::<8, 4>(cx);
    st::<16, 9>(cx);
    st::<32, 17>(cx);
    st::<64, 33>(cx);
    st::<128, 65>(cx);
    st::<256, 129>(cx);
    st::<512, 257>(cx);
    st::<1024, 513>(cx);
    st::<2048, 1025>(cx);
    st::<12, 7>(cx);
    st::<100, 51>(cx);
}

pub fn c03_rest(cx: &mut Ctx) {
    fn go<T: Rs>(cx: &mut Ctx, rounds: usize) {
        for round in 0..rounds {
            if cx.out_of_time() {
                return;
            }
            let eng = sc::<T>();
            let mut pl = RfftPlanner::<T>::new();
            let mut log = vec![];
            for _ in 0..10 {
                let n = match cx.rng.below(4) {
                    0 => 1usize << cx.rng.range(0, 8),
                    1 => 2 * cx.rng.range(1, 40),
                    2 => cx.rng.range(0, 30),
                    _ => *[256usize, 512, 6, 10, 12, 200, 4, 2].get(cx.rng.below(8)).unwrap(),
                };
                let op = cx.rng.below(5);
                let ol = if cx.rng.below(5) == 0 { cx.rng.below(10) } else { n / 2 + 1 };
                let x: Vec<T> = rand_r(&mut cx.rng, n).iter().map(|&v| T::of(v)).collect();
                let spec: Vec<Complex<T>> = to_c(&rand_c(&mut cx.rng, ol));
                log.push(format!("op{op} n={n} spec={ol}"));
                let case = format!("{} round={round} history [{}] seed={}", T::NAME, log.join("; "), cx.seed);
                cx.check("rfft-planner-history", &case, |_| {
                    let run = |pl: &mut RfftPlanner<T>, eng: &ScalarFftImpl<T>| {
                        let (mut x, mut o) = (x.clone(), spec.clone());
                        let mut s = vec![Complex::<T>::zero(); n / 2];
                        let r = match op {
                            0 => pl.rfft(eng, &mut x, &mut o),
                            1 => pl.irfft(eng, &mut o, &mut x),
                            2 => pl.rfft_with_scratch(eng, &mut x, &mut o, &mut s),
                            3 => rfft_packed(pl, eng, &mut x, &mut o, &mut s),
                            _ => irfft_packed(pl, eng, &mut o, &mut x, &mut s),
                        };
                        (r, if op == 1 || op == 4 { vec![] } else { bits(&o) }, if op == 1 || op == 4 { bits_r(&x) } else { vec![] })
                    };
                    let a = run(&mut pl, &eng);
                    let b = run(&mut RfftPlanner::new(), &sc::<T>());
                    if a.0 != b.0 {
                        return Err(format!("reused {:?}, fresh {:?}", a.0, b.0));
                    }
                    if a.0.is_ok() && a != b {
                        return Err("reused planner gives a different result than a fresh one".into());
                    }
                    Ok(())
                });
            }
        }
    }
    let r = if cx.thorough { 600 } else { 100 };
    go::<f32>(cx, r);
    go::<f64>(cx, r);
    // DCT planner
    for round in 0..r {
        let mut pl = kofft::dct::DctPlanner::new();
        let mut log = vec![];
        for _ in 0..8 {
            let plan = cx.rng.range(0, 24);
            let n = if cx.rng.below(4) == 0 { cx.rng.range(0, 24) } else { plan };
            let ol = if cx.rng.below(6) == 0 { cx.rng.range(0, 24) } else { n };
            let x = v32(&rand_r(&mut cx.rng, n));
            log.push(format!("plan_dct2({plan}) on {n}->{ol}"));
            let case = format!("round={round} history [{}] seed={}", log.join("; "), cx.seed);
            cx.check("dct-planner-history", &case, |_| {
                let run = |pl: &mut kofft::dct::DctPlanner| {
                    let mut f = pl.plan_dct2(plan);
                    let (mut a, mut b) = (x.clone(), vec![0f32; ol]);
                    let r1 = f(&mut a, &mut b);
                    let (mut a2, mut b2) = (x.clone(), vec![0f32; ol]);
                    let r2 = f(&mut a2, &mut b2);
                    (r1, bits_r(&b), r2, bits_r(&b2))
                };
                let a = run(&mut pl);
                let b = run(&mut kofft::dct::DctPlanner::new());
                if (a.0, a.2) != (b.0, b.2) {
                    return Err(format!("reused {:?} {:?}, fresh {:?} {:?}", a.0, a.2, b.0, b.2));
                }
                if a.0.is_ok() && (a != b || a.1 != a.3) {
                    return Err("reused DCT planner gives a different result than a fresh one".into());
                }
                Ok(())
            });
        }
    }
    // DST planner
    fn dstp<T: Rs>(cx: &mut Ctx, r: usize) {
        for round in 0..r {
            let mut pl = kofft::dst::DstPlanner::<T>::new();
            let mut log = vec![];
            for _ in 0..8 {
                let n = cx.rng.range(0, 12);
                let op = cx.rng.below(4);
                log.push(format!("op{op}({n})"));
                let case = format!("{} round={round} history [{}]", T::NAME, log.join("; "));
                cx.check("dst-planner-history", &case, |_| {
                    let run = |pl: &mut kofft::dst::DstPlanner<T>| match op {
                        0 => bits_r(pl.plan_dst2(n)),
                        1 => bits_r(pl.plan_dst3(n)),
                        2 => bits_r(pl.plan_dst4(n)),
                        _ => vec![pl.scratch(n).len() as u64],
                    };
                    let a = run(&mut pl);
                    let b = run(&mut kofft::dst::DstPlanner::new());
                    if a != b {
                        return Err("reused DST planner differs from a fresh one".into());
                    }
                    pl.scratch(n).fill(T::of(5.0));
                    Ok(())
                });
            }
        }
    }
    dstp::<f32>(cx, r);
    dstp::<f64>(cx, r);
}

// ---------------------------------------------------------------- STFT

fn mkwin(cx: &mut Ctx, n: usize, kind: usize) -> Vec<f64> {
    let w: Vec<f64> = match kind % 4 {
        0 => (0..n).map(|i| 0.5 - 0.5 * (2.0 * PI * i as f64 / n as f64).cos()).collect(),
        1 => vec![1.0; n],
        2 => (0..n).map(|_| 0.2 + cx.rng.unit().abs()).collect(),
        _ => (0..n).map(|i| if i % 5 == 2 { 0.0 } else { cx.rng.unit() }).collect(),
    };
    w.into_iter().map(|v| v as f32 as f64).collect()
}
fn wlen(cx: &mut Ctx) -> usize {
    if nostd() || cx.rng.bool() {
        1 << cx.rng.range(0, 5)
    } else {
        cx.rng.range(1, 24)
    }
}
fn ref_frame(sig: &[f64], win: &[f64], start: usize) -> Vec<C64> {
    let f: Vec<C64> = (0..win.len()).map(|i| (if start + i < sig.len() { (sig[start + i] as f32 * win[i] as f32) as f64 } else { 0.0 }, 0.0)).collect();
    dft(&f, -1.0)
}
/// Absolute closeness on an overall scale (frames may be identically zero).
fn close(got: &[Complex32], want: &[C64], scale: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("frame length {} instead of {}", got.len(), want.len()));
    }
    let t = 1e-4 * (scale + 1e-3);
    for i in 0..want.len() {
        let d = (got[i].re as f64 - want[i].0).abs().max((got[i].im as f64 - want[i].1).abs());
        if !(d <= t) {
            return Err(format!("bin {i}: got ({}, {}), contract ({}, {})", got[i].re, got[i].im, want[i].0, want[i].1));
        }
    }
    Ok(())
}

pub fn c10(cx: &mut Ctx) {
    let rounds = if cx.thorough { 6000 } else { 900 };
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let wl = wlen(cx);
        let win = mkwin(cx, wl, round);
        let n = match cx.rng.below(5) {
            0 => cx.rng.range(0, 3),
            1 => wl * cx.rng.range(1, 4),
            _ => cx.rng.range(0, 120),
        };
        let hop = match cx.rng.below(6) {
            0 => wl,
            1 => wl + cx.rng.range(1, 5),
            2 => 1,
            _ => cx.rng.range(1, wl),
        };
        let sig = rand_r(&mut cx.rng, n);
        let req = n.div_ceil(hop);
        let extra = if cx.rng.below(3) == 0 { cx.rng.range(1, 4) } else { 0 };
        let (s32, w32) = (v32(&sig), v32(&win));
        let eng = sc::<f32>();
        let scale = wl as f64;
        let case = format!("signal={n} window={wl} (kind {}) hop={hop} frames={} seed={} round={round}", round % 4, req + extra, cx.seed);
        let prior = cx.rng.below(2 * wl + 1);
        let mkout = |k: usize| -> Vec<Vec<Complex32>> { (0..k).map(|i| vec![Complex32::new(7.0, 8.0); if i % 2 == 0 { prior } else { 0 }]).collect() };
        cx.check("stft", &case, |_| {
            let mut out = mkout(req + extra);
            kofft::stft::stft(&s32, &w32, hop, &mut out, &eng).map_err(|e| format!("Err({e:?})"))?;
            for (f, fr) in out.iter().enumerate() {
                close(fr, &ref_frame(&sig, &win, f * hop), scale).map_err(|m| format!("frame {f}: {m}"))?;
            }
            Ok(())
        });
        cx.check("stream", &case, |_| {
            let mut st = kofft::stft::StftStream::new(&s32, &w32, hop, &eng).map_err(|e| format!("Err({e:?})"))?;
            let mut fr = vec![Complex32::new(f32::NAN, 1.0); wl];
            let mut cnt = 0;
            loop {
                // a wrong-size buffer is refused and does not advance the stream
                if cnt % 3 == 1 {
                    let mut bad = vec![Complex32::new(0.0, 0.0); wl + 1];
                    match st.next_frame(&mut bad) {
                        Err(FftError::MismatchedLengths) => {}
                        r => return Err(format!("wrong frame length gave {r:?}")),
                    }
                }
                match st.next_frame(&mut fr) {
                    Ok(false) => break,
                    Ok(true) => {
                        close(&fr, &ref_frame(&sig, &win, cnt * hop), scale).map_err(|m| format!("streamed frame {cnt}: {m}"))?;
                        cnt += 1;
                        if cnt > req {
                            return Err(format!("more than {req} frames"));
                        }
                    }
                    Err(e) => return Err(format!("Err({e:?})")),
                }
            }
            if cnt != req {
                return Err(format!("{cnt} frames, contract {req}"));
            }
            if st.next_frame(&mut fr) != Ok(false) {
                return Err("stream restarts after its end".into());
            }
            Ok(())
        });
        let start = cx.rng.range(0, n + wl + 2);
        cx.check("frame", &format!("{case} start={start}"), |_| {
            let mut fr = vec![Complex32::new(f32::NAN, 1.0); wl];
            kofft::stft::frame(&s32, &w32, start, &mut fr, &eng).map_err(|e| format!("Err({e:?})"))?;
            close(&fr, &ref_frame(&sig, &win, start), scale)?;
            for l in [wl + 1, wl - 1, 0, 2 * wl] {
                if l != wl {
                    let mut bad = vec![Complex32::new(0.0, 0.0); l];
                    match kofft::stft::frame(&s32, &w32, start, &mut bad, &eng) {
                        Err(FftError::MismatchedLengths) => {}
                        r => return Err(format!("frame buffer of {l} gave {r:?}")),
                    }
                }
            }
            Ok(())
        });
        #[cfg(feature = "cfg_full")]
        cx.check("parallel", &case, |_| {
            let mut out = mkout(req + extra);
            kofft::stft::parallel(&s32, &w32, hop, &mut out, &eng).map_err(|e| format!("Err({e:?})"))?;
            for (f, fr) in out.iter().enumerate() {
                close(fr, &ref_frame(&sig, &win, f * hop), scale).map_err(|m| format!("frame {f}: {m}"))?;
            }
            if req > 0 {
                let mut out = mkout(req - 1);
                match kofft::stft::parallel(&s32, &w32, hop, &mut out, &eng) {
                    Err(FftError::MismatchedLengths) => {}
                    r => return Err(format!("{} frames gave {r:?}", req - 1)),
                }
            }
            if kofft::stft::parallel(&s32, &w32, 0, &mut out, &eng) != Err(FftError::InvalidHopSize) {
                return Err("hop 0 accepted".into());
            }
            Ok(())
        });
        cx.check("rejects", &case, |_| {
            let mut out = mkout(req + 1);
            if kofft::stft::stft(&s32, &w32, 0, &mut out, &eng) != Err(FftError::InvalidHopSize) {
                return Err("hop 0 accepted".into());
            }
            if kofft::stft::StftStream::new(&s32, &w32, 0, &eng).err() != Some(FftError::InvalidHopSize) {
                return Err("stream hop 0 accepted".into());
            }
            for less in 1..=req.min(3) {
                let mut out = mkout(req - less);
                match kofft::stft::stft(&s32, &w32, hop, &mut out, &eng) {
                    Err(FftError::MismatchedLengths) => {}
                    r => return Err(format!("{} frames gave {r:?}", req - less)),
                }
            }
            Ok(())
        });
        #[cfg(not(feature = "cfg_nostd"))]
        if round % 3 == 0 {
            cx.check("stft_magnitudes", &case, |_| {
                let (m, mx) = kofft::visual::spectrogram::stft_magnitudes(&s32, wl, hop).map_err(|e| format!("Err({e:?})"))?;
                let hw: Vec<f64> = (0..wl).map(|i| 0.5 - 0.5 * (2.0 * PI * i as f64 / wl as f64).cos()).collect();
                if m.len() != req {
                    return Err(format!("{} columns, contract {req}", m.len()));
                }
                let mut best = 0.0f64;
                for (f, col) in m.iter().enumerate() {
                    let r = ref_frame(&sig, &hw, f * hop);
                    let want: Vec<f64> = r.iter().take(wl / 2).map(|c| c.0.hypot(c.1)).collect();
                    near_abs(&v64(col), &want, 1e-4 * scale + 1e-5).map_err(|m| format!("column {f}: {m}"))?;
                    best = col.iter().fold(best, |a, &b| a.max(b as f64));
                }
                if best != mx as f64 {
                    return Err(format!("maximum {mx}, contract {best}"));
                }
                Ok(())
            });
        }
    }
}

/// Reference synthesis: (weighted sum, squared-window sum).
fn ref_istft(frames: &[Vec<C64>], win: &[f64], hop: usize, len: usize, init: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let mut num = init.to_vec();
    let mut den = vec![0.0; len];
    for (f, fr) in frames.iter().enumerate() {
        let t = idft(fr);
        for i in 0..win.len() {
            let p = f * hop + i;
            if p < len {
                num[p] += t[i].0 * win[i];
                den[p] += (win[i] as f32 * win[i] as f32) as f64;
            }
        }
    }
    (num, den)
}
fn quot(num: f64, den: f64) -> f64 {
    if den > 1e-8 {
        num / den
    } else {
        num
    }
}
/// Compare a synthesis with the reference quotient, allowing for ill conditioned weights.
fn cmp_synth(got: &[f32], num: &[f64], den: &[f64], zero_uncovered: bool, skip: impl Fn(usize) -> bool) -> Result<(), String> {
    if got.len() != num.len() {
        return Err(format!("length {} instead of {}", got.len(), num.len()));
    }
    for t in 0..num.len() {
        // weights within rounding of the threshold are not decided
        if skip(t) || (den[t] > 0.9e-8 && den[t] < 1.1e-8) {
            continue;
        }
        let w = if den[t] > 1e-8 {
            num[t] / den[t]
        } else if zero_uncovered {
            0.0
        } else {
            num[t]
        };
        let al = if den[t] > 1e-8 { 2e-4 * (1.0 + 1.0 / den[t]) } else { 2e-4 };
        if !((got[t] as f64 - w).abs() <= al) {
            return Err(format!("sample {t}: got {}, contract {} (weight {:e})", got[t], w, den[t]));
        }
    }
    Ok(())
}

pub fn c11(cx: &mut Ctx) {
    let rounds = if cx.thorough { 6000 } else { 900 };
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let wl = wlen(cx);
        let win = mkwin(cx, wl, round);
        let nf = cx.rng.range(0, 9);
        let hop = match cx.rng.below(5) {
            0 => wl,
            1 => wl + cx.rng.range(1, 4),
            2 => 1,
            _ => cx.rng.range(1, wl),
        };
        let full = if nf == 0 { 0 } else { (nf - 1) * hop + wl };
        let len = match cx.rng.below(4) {
            0 => full,
            1 => full + cx.rng.range(0, 6),
            2 => cx.rng.range(0, full.max(1)),
            _ => full / 2,
        };
        let frames: Vec<Vec<C64>> = (0..nf).map(|_| rand_c(&mut cx.rng, wl)).collect();
        let init: Vec<f64> = if cx.rng.below(3) == 0 { rand_r(&mut cx.rng, len) } else { vec![0.0; len] };
        let zeroed = init.iter().all(|&v| v == 0.0);
        let (num, den) = ref_istft(&frames, &win, hop, len, &init);
        let w32 = v32(&win);
        let f32s: Vec<Vec<Complex32>> = frames.iter().map(|f| to_c(f)).collect();
        let eng = sc::<f32>();
        let case = format!("window={wl} (kind {}) hop={hop} frames={nf} output={len} zeroed={zeroed} seed={} round={round}", round % 4, cx.seed);
        cx.check("istft", &case, |_| {
            let mut fr = f32s.clone();
            let mut out = v32(&init);
            let mut scr = vec![f32::NAN; len];
            kofft::stft::istft(&mut fr, &w32, hop, &mut out, &mut scr, &eng).map_err(|e| format!("Err({e:?})"))?;
            cmp_synth(&out, &num, &den, false, |_| false)
        });
        #[cfg(feature = "cfg_full")]
        cx.check("parallel", &case, |_| {
            let mut out = v32(&init);
            kofft::stft::inverse_parallel(&f32s, &w32, hop, &mut out, &eng).map_err(|e| format!("Err({e:?})"))?;
            cmp_synth(&out, &num, &den, true, |t| den[t] <= 1e-8 && !zeroed)?;
            if kofft::stft::inverse_parallel(&f32s, &w32, 0, &mut out, &eng) != Err(FftError::InvalidHopSize) {
                return Err("hop 0 accepted".into());
            }
            Ok(())
        });
        let start = cx.rng.range(0, len + 3);
        cx.check("inverse_frame", &format!("{case} start={start}"), |_| {
            let one = rand_c(&mut Rng::new(round as u64 + 5), wl);
            let mut fr = to_c::<f32>(&one);
            let mut out = v32(&init);
            kofft::stft::inverse_frame(&mut fr, &w32, start, &mut out, &eng).map_err(|e| format!("Err({e:?})"))?;
            let t = idft(&one);
            let mut want = init.clone();
            for i in 0..wl {
                if start + i < len {
                    want[start + i] += t[i].0 * win[i];
                }
            }
            near_abs(&v64(&out), &want, 2e-4)?;
            let before = v32(&init);
            let mut o2 = before.clone();
            let mut bad = vec![Complex32::new(1.0, 0.0); wl + 1];
            match kofft::stft::inverse_frame(&mut bad, &w32, start, &mut o2, &eng) {
                Err(FftError::MismatchedLengths) if o2 == before => Ok(()),
                r => Err(format!("wrong frame length gave {r:?}")),
            }
        });
        // analysis followed by synthesis
        let n = cx.rng.range(1, 100);
        let sig = rand_r(&mut cx.rng, n);
        let hop2 = cx.rng.range(1, wl);
        cx.check("stft-istft", &format!("signal={n} window={wl} (kind {}) hop={hop2} seed={} round={round}", round % 4, cx.seed), |_| {
            let req = n.div_ceil(hop2);
            let mut fr = vec![vec![]; req];
            let s32 = v32(&sig);
            kofft::stft::stft(&s32, &w32, hop2, &mut fr, &eng).map_err(|e| format!("Err({e:?})"))?;
            let mut out = vec![0f32; n];
            let mut scr = vec![0f32; n];
            kofft::stft::istft(&mut fr, &w32, hop2, &mut out, &mut scr, &eng).map_err(|e| format!("Err({e:?})"))?;
            for t in 0..n {
                let mut wsum = 0.0;
                for f in 0..req {
                    if t >= f * hop2 && t - f * hop2 < wl {
                        wsum += win[t - f * hop2].powi(2);
                    }
                }
                if wsum > 2e-8 && !((out[t] as f64 - sig[t]).abs() <= 2e-4 * (1.0 + 1.0 / wsum)) {
                    return Err(format!("sample {t}: got {}, original {} (weight {wsum:e})", out[t], sig[t]));
                }
            }
            Ok(())
        });
        let bad = cx.rng.below(nf.max(1));
        cx.check("rejects", &case, |_| {
            let mut fr = f32s.clone();
            let mut out = v32(&init);
            let mut scr = vec![0f32; len];
            if kofft::stft::istft(&mut fr, &w32, 0, &mut out, &mut scr, &eng) != Err(FftError::InvalidHopSize) {
                return Err("hop 0 accepted".into());
            }
            let mut scr = vec![0f32; len + 1];
            if kofft::stft::istft(&mut fr, &w32, hop, &mut out, &mut scr, &eng) != Err(FftError::MismatchedLengths) {
                return Err("scratch of the wrong length accepted".into());
            }
            if nf > 0 {
                let mut scr = vec![0f32; len];
                fr[bad].push(Complex32::new(0.0, 0.0));
                if kofft::stft::istft(&mut fr, &w32, hop, &mut out, &mut scr, &eng) != Err(FftError::MismatchedLengths) {
                    return Err("frame of the wrong length accepted".into());
                }
                #[cfg(feature = "cfg_full")]
                {
                    let mut fr = f32s.clone();
                    fr[bad].push(Complex32::new(0.0, 0.0));
                    let mut out = vec![0.5f32; len];
                    if kofft::stft::inverse_parallel(&fr, &w32, hop, &mut out, &eng) != Err(FftError::MismatchedLengths) || out.iter().any(|&v| v != 0.5) {
                        return Err("parallel: frame of the wrong length accepted".into());
                    }
                }
            }
            Ok(())
        });
    }
}

pub fn c12(cx: &mut Ctx) {
    let rounds = if cx.thorough { 8000 } else { 1500 };
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let wl = wlen(cx);
        let win = mkwin(cx, wl, round);
        let hop = match cx.rng.below(4) {
            0 => wl,
            1 => 1,
            _ => cx.rng.range(1, wl),
        };
        let nf = cx.rng.range(0, 14);
        let frames: Vec<Vec<C64>> = (0..nf).map(|_| rand_c(&mut cx.rng, wl)).collect();
        let w32 = v32(&win);
        let f32s: Vec<Vec<Complex32>> = frames.iter().map(|f| to_c(f)).collect();
        let eng = sc::<f32>();
        let badmask = cx.rng.next();
        let len = if nf == 0 { 0 } else { (nf - 1) * hop + wl };
        let (num, den) = ref_istft(&frames, &win, hop, len, &vec![0.0; len]);
        let case = format!("window={wl} (kind {}) hop={hop} frames={nf} bad-frame-mask={badmask:x} seed={} round={round}", round % 4, cx.seed);
        cx.check("stream", &case, |_| {
            let mut st = kofft::stft::IstftStream::new(wl, hop, w32.clone(), &eng).map_err(|e| format!("Err({e:?})"))?;
            let mut out = vec![];
            for (i, f) in f32s.iter().enumerate() {
                if badmask >> (i % 64) & 1 == 1 {
                    for l in [wl + 1, wl - 1] {
                        let bad = vec![Complex32::new(3.0, 1.0); l];
                        match st.push_frame(&bad) {
                            Err(FftError::MismatchedLengths) => {}
                            r => return Err(format!("frame of length {l} gave {:?}", r.map(|v| v.len()))),
                        }
                    }
                }
                let o = st.push_frame(f).map_err(|e| format!("push {i}: Err({e:?})"))?;
                if o.len() != hop {
                    return Err(format!("push {i} returned {} samples, contract {hop}", o.len()));
                }
                out.extend_from_slice(o);
            }
            // rejected frames do not count, whether or not anything was pushed before
            if badmask >> 40 & 3 != 0 {
                for l in [0, wl + 1, wl - 1, 2 * wl] {
                    if l != wl && st.push_frame(&vec![Complex32::new(3.0, 1.0); l]).is_ok() {
                        return Err(format!("frame of length {l} accepted"));
                    }
                }
            }
            let tail = st.flush().to_vec();
            let want = if nf == 0 { 0 } else { wl - hop };
            if tail.len() != want {
                return Err(format!("flush returned {} samples, contract {want}", tail.len()));
            }
            out.extend_from_slice(&tail);
            for _ in 0..2 {
                let l = st.flush().len();
                if l != 0 {
                    return Err(format!("a further flush returned {l} samples"));
                }
            }
            cmp_synth(&out, &num, &den, false, |_| false)?;
            // against the batch form itself
            let mut fr = f32s.clone();
            let mut b = vec![0f32; len];
            let mut scr = vec![0f32; len];
            kofft::stft::istft(&mut fr, &w32, hop, &mut b, &mut scr, &eng).map_err(|e| format!("batch Err({e:?})"))?;
            for t in 0..len {
                let al = 1e-4 * (1.0 + 1.0 / den[t].max(1e-8));
                if !(den[t] > 0.9e-8 && den[t] < 1.1e-8) && !((b[t] as f64 - out[t] as f64).abs() <= al) {
                    return Err(format!("sample {t}: stream {}, batch {}", out[t], b[t]));
                }
            }
            Ok(())
        });
        cx.check("new", &case, |_| {
            if kofft::stft::IstftStream::new(wl, 0, w32.clone(), &eng).err() != Some(FftError::InvalidHopSize) {
                return Err("hop 0 accepted".into());
            }
            for l in [wl + 1, wl - 1, 0] {
                if l != wl && kofft::stft::IstftStream::new(wl, hop, vec![1.0; l], &eng).err() != Some(FftError::MismatchedLengths) {
                    return Err(format!("window of length {l} accepted for frame length {wl}"));
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- DCT / DST / DHT

fn dtol(n: usize) -> f64 {
    1e-4 + 4e-6 * n as f64
}
/// k*pi*num/den with the integer reduced modulo 2*den first.
fn cs(num: u128, den: u128) -> (f64, f64) {
    let r = (num % (2 * den)) as f64;
    let a = PI * r / den as f64;
    (a.cos(), a.sin())
}
fn rdct(kind: usize, x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let nn = n as u128;
    (0..n)
        .map(|k| {
            let kk = k as u128;
            match kind {
                1 => {
                    if n == 1 {
                        return 2.0 * x[0];
                    }
                    let mut s = x[0] + if k % 2 == 0 { x[n - 1] } else { -x[n - 1] };
                    for i in 1..n - 1 {
                        s += 2.0 * x[i] * cs(i as u128 * kk, nn - 1).0;
                    }
                    s
                }
                2 => (0..n).map(|i| x[i] * cs((2 * i as u128 + 1) * kk, 2 * nn).0).sum(),
                3 => x[0] / 2.0 + (1..n).map(|i| x[i] * cs(i as u128 * (2 * kk + 1), 2 * nn).0).sum::<f64>(),
                _ => (0..n).map(|i| x[i] * cs((2 * i as u128 + 1) * (2 * kk + 1), 4 * nn).0).sum(),
            }
        })
        .collect()
}
fn rdst(kind: usize, x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let nn = n as u128;
    (0..n)
        .map(|k| {
            let kk = k as u128;
            match kind {
                1 => (0..n).map(|i| x[i] * cs((i as u128 + 1) * (kk + 1), nn + 1).1).sum::<f64>(),
                2 => (0..n).map(|i| x[i] * cs((2 * i as u128 + 1) * (kk + 1), 2 * nn).1).sum(),
                3 => (0..n).map(|i| (if i + 1 == n { 0.5 } else { 1.0 }) * x[i] * cs((i as u128 + 1) * (2 * kk + 1), 2 * nn).1).sum(),
                _ => (0..n).map(|i| x[i] * cs((2 * i as u128 + 1) * (2 * kk + 1), 4 * nn).1).sum(),
            }
        })
        .collect()
}
type F1 = fn(&[f32]) -> Vec<f32>;
type FB = fn(&mut [Vec<f32>]);

/// scale-aware comparison for direct sums: |error| <= tol * (rms(out) + |x|_2)
fn near_sum(got: &[f32], want: &[f64], x: &[f64], t: f64) -> Result<(), String> {
    let sc = x.iter().map(|v| v * v).sum::<f64>().sqrt();
    near_abs(&v64(got), want, t * (sc + 1e-6))
}
fn sums(cx: &mut Ctx, what: &str, heap: &[(usize, F1)], batch: &[(usize, FB)], rf: fn(usize, &[f64]) -> Vec<f64>) {
    let all = if cx.thorough { 150 } else { 70 };
    let top = if cx.thorough { 600 } else { 260 };
    for n in cx.lengths(all, top, if cx.thorough { 20 } else { 5 }) {
        if cx.out_of_time() {
            return;
        }
        for kind in 1..=4 {
            let x = rand_r(&mut cx.rng, n);
            let want = rf(kind, &x);
            for (k, f) in heap {
                if *k == kind {
                    cx.check("defining-sum", &format!("{what}-{kind} n={n} seed={}", cx.seed), |_| near_sum(&f(&v32(&x)), &want, &x, dtol(n)));
                }
            }
        }
    }
    for round in 0..if cx.thorough { 400 } else { 80 } {
        let items: Vec<Vec<f64>> = (0..cx.rng.range(0, 6))
            .map(|_| {
                let l = cx.rng.range(1, 20);
                rand_r(&mut cx.rng, l)
            })
            .collect();
        for (k, f) in batch {
            cx.check("batch", &format!("{what}-{k} batch/multi-channel lengths {:?} round={round}", items.iter().map(|v| v.len()).collect::<Vec<_>>()), |_| {
                let mut b: Vec<Vec<f32>> = items.iter().map(|v| v32(v)).collect();
                f(&mut b);
                if b.len() != items.len() {
                    return Err("number of items changed".into());
                }
                for (i, v) in b.iter().enumerate() {
                    near_sum(v, &rf(*k, &items[i]), &items[i], dtol(items[i].len())).map_err(|m| format!("item {i}: {m}"))?;
                }
                Ok(())
            });
        }
    }
}
fn stack_one<const N: usize>(
    cx: &mut Ctx,
    what: &str,
    kind: usize,
    min: usize,
    f: fn(&[f32; N], &mut [f32; N]) -> Result<(), FftError>,
    rf: fn(usize, &[f64]) -> Vec<f64>,
) {
    let x = rand_r(&mut cx.rng, N);
    cx.check("stack", &format!("{what}<{N}> seed={}", cx.seed), |_| {
        let mut a = [0f32; N];
        for i in 0..N {
            a[i] = x[i] as f32;
        }
        let mut o = [f32::NAN; N];
        let r = f(&a, &mut o);
        let ok = N >= min && N % 2 == 0 && N.is_power_of_two();
        match r {
            Ok(()) if ok => near_sum(&o, &rf(kind, &x), &x, dtol(N)),
            Err(FftError::NonPowerOfTwoNoStd) if !ok => Ok(()),
            r => Err(format!("got {r:?}, supported={ok}")),
        }
    });
}

pub fn c13(cx: &mut Ctx) {
    use kofft::dct::*;
    let mut heap: Vec<(usize, F1)> = vec![(1, dct1), (2, dct2), (3, dct3), (4, dct4)];
    #[cfg(feature = "cfg_full")]
    heap.extend([(2usize, slow::dct2 as F1), (3, slow::dct3 as F1), (4, slow::dct4 as F1)]);
    heap.dedup();
    let batch: Vec<(usize, FB)> = vec![
        (1, batch_i),
        (2, batch_ii),
        (3, batch_iii),
        (4, batch_iv),
        (1, multi_channel_i),
        (2, multi_channel_ii),
        (3, multi_channel_iii),
        (4, multi_channel_iv),
    ];
    sums(cx, "DCT", &heap, &batch, rdct);
    // planned form
    for n in cx.lengths(64, 300, 4) {
        let x = rand_r(&mut cx.rng, n);
        let x2 = rand_r(&mut cx.rng, n);
        cx.check("planned", &format!("plan_dct2({n}) seed={}", cx.seed), |_| {
            let mut p = DctPlanner::new();
            let mut f = p.plan_dct2(n);
            for x in [&x, &x2] {
                let mut i = v32(x);
                let mut o = vec![f32::NAN; n];
                match f(&mut i, &mut o) {
                    Ok(()) => near_sum(&o, &rdct(2, x), x, dtol(n))?,
                    Err(e) if allowed(n, e) => {}
                    Err(e) => return Err(format!("Err({e:?})")),
                }
            }
            let mut i = vec![0f32; n];
            let mut o = vec![0f32; n + 1];
            if f(&mut i, &mut o) != Err(FftError::MismatchedLengths) {
                return Err("output of the wrong length accepted".into());
            }
            let mut i = vec![0f32; n + 1];
            let mut o = vec![0f32; n + 1];
            if f(&mut i, &mut o) != Err(FftError::MismatchedLengths) {
                return Err("length other than the planned one accepted".into());
            }
            Ok(())
        });
        cx.check("dct3-of-dct2", &format!("n={n} seed={}", cx.seed), |_| {
            let y = dct3(&dct2(&v32(&x)));
            let want: Vec<f64> = x.iter().map(|v| v * n as f64 / 2.0).collect();
            let sc: Vec<f64> = want.clone();
            near_sum(&y, &want, &sc, dtol(n) * 4.0)
        });
    }
    macro_rules! each { ($($n:literal)*) => { $(
        stack_one::<$n>(cx, "dct1_inplace_stack", 1, 2, dct1_inplace_stack::<$n>, rdct);
        stack_one::<$n>(cx, "dct2_inplace_stack", 2, 1, dct2_inplace_stack::<$n>, rdct);
    )* } }
    for _ in 0..3 {
        each!(0 1 2 3 4 5 6 7 8 12 16 20 32 33 64 100 128 256);
    }
}

pub fn c14(cx: &mut Ctx) {
    use kofft::dst::*;
    let heap: Vec<(usize, F1)> = vec![(1, dst1), (2, dst2), (3, dst3), (4, dst4)];
    let batch: Vec<(usize, FB)> = vec![
        (1, batch_i),
        (2, batch_ii),
        (3, batch_iii),
        (4, batch_iv),
        (1, multi_channel_i),
        (2, multi_channel_ii),
        (3, multi_channel_iii),
        (4, multi_channel_iv),
    ];
    sums(cx, "DST", &heap, &batch, rdst);
    for n in cx.lengths(64, 300, 4) {
        let x = rand_r(&mut cx.rng, n);
        cx.check("dst3-of-dst2", &format!("n={n} seed={}", cx.seed), |_| {
            let y = dst3(&dst2(&v32(&x)));
            let want: Vec<f64> = x.iter().map(|v| v * n as f64 / 2.0).collect();
            near_sum(&y, &want, &want, dtol(n) * 4.0)
        });
        cx.check("planner-tables", &format!("DstPlanner n={n}"), |_| {
            let mut p = DstPlanner::<f32>::new();
            let half: Vec<f64> = (0..n).map(|i| cs(2 * i as u128 + 1, 2 * n as u128).1).collect();
            let zero: Vec<f64> = (0..n).map(|i| cs(i as u128, n as u128).1).collect();
            for _ in 0..2 {
                near_abs(&v64(p.plan_dst2(n)), &half, 1e-5)?;
                near_abs(&v64(p.plan_dst3(n)), &zero, 1e-5)?;
                near_abs(&v64(p.plan_dst4(n)), &half, 1e-5)?;
            }
            let mut p = DstPlanner::<f64>::new();
            near_abs(p.plan_dst3(n), &zero, 1e-12)?;
            near_abs(p.plan_dst2(n), &half, 1e-12)?;
            near_abs(p.plan_dst4(n), &half, 1e-12)
        });
    }
    macro_rules! each { ($($n:literal)*) => { $(
        stack_one::<$n>(cx, "dst2_inplace_stack", 2, 1, dst2_inplace_stack::<$n>, rdst);
        stack_one::<$n>(cx, "dst2_inplace_stack_fft", 2, 1, dst2_inplace_stack_fft::<$n>, rdst);
        stack_one::<$n>(cx, "dst3_inplace_stack_fft", 3, 1, dst3_inplace_stack_fft::<$n>, rdst);
        stack_one::<$n>(cx, "dst4_inplace_stack", 4, 1, dst4_inplace_stack::<$n>, rdst);
    )* } }
    for _ in 0..3 {
        each!(0 1 2 3 4 5 6 7 8 12 16 20 32 33 64 100 128 256);
    }
}

pub fn c15(cx: &mut Ctx) {
    use kofft::hartley::*;
    fn rdht(_: usize, x: &[f64]) -> Vec<f64> {
        let n = x.len();
        (0..n)
            .map(|k| {
                (0..n)
                    .map(|i| {
                        let (c, s) = cs(2 * (i as u128) * (k as u128), n as u128);
                        x[i] * (c + s)
                    })
                    .sum()
            })
            .collect()
    }
    let all = if cx.thorough { 150 } else { 80 };
    let top = if cx.thorough { 700 } else { 300 };
    for n in cx.lengths(all, top, 8) {
        let x = rand_r(&mut cx.rng, n);
        cx.check("defining-sum", &format!("dht n={n} seed={}", cx.seed), |_| near_sum(&dht(&v32(&x)), &rdht(0, &x), &x, dtol(n) * 4.0));
        cx.check("involution", &format!("dht(dht) n={n} seed={}", cx.seed), |_| {
            let want: Vec<f64> = x.iter().map(|v| v * n as f64).collect();
            near_sum(&dht(&dht(&v32(&x))), &want, &want, dtol(n) * 8.0)
        });
    }
    cx.check("defining-sum", "dht of the empty signal", |_| if dht(&[]).is_empty() { Ok(()) } else { Err("not empty".into()) });
    for round in 0..if cx.thorough { 400 } else { 100 } {
        let items: Vec<Vec<f64>> = (0..cx.rng.range(0, 6))
            .map(|_| {
                let l = cx.rng.range(0, 20);
                rand_r(&mut cx.rng, l)
            })
            .collect();
        for (name, f) in [("batch", batch as FB), ("multi_channel", multi_channel as FB)] {
            cx.check("batch", &format!("{name} lengths {:?} round={round}", items.iter().map(|v| v.len()).collect::<Vec<_>>()), |_| {
                let mut b: Vec<Vec<f32>> = items.iter().map(|v| v32(v)).collect();
                f(&mut b);
                for (i, v) in b.iter().enumerate() {
                    near_sum(v, &rdht(0, &items[i]), &items[i], 1e-3).map_err(|m| format!("item {i}: {m}"))?;
                }
                Ok(())
            });
        }
    }
}

pub fn c16(cx: &mut Ctx) {
    use kofft::czt::czt_f32;
    use kofft::goertzel::goertzel_f32;
    let rounds = if cx.thorough { 6000 } else { 1200 };
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let mut n = cx.rng.range(0, if round % 5 == 0 { 80 } else { 20 });
        let mut m = cx.rng.range(0, if round % 5 == 0 { 80 } else { 20 });
        // starting points and ratios of extreme modulus, on few samples
        let extreme = round % 7 == 3;
        if extreme {
            n = n.min(4);
            m = m.min(4);
        }
        let x = rand_r(&mut cx.rng, n);
        let polar = |r: f64, t: f64| ((r * t.cos()) as f32, (r * t.sin()) as f32);
        let big = n > 20 || m > 20;
        let far = 10f64.powf(4.0 * cx.rng.unit());
        let w = match cx.rng.below(4) {
            1 if extreme => polar(10f64.powf(cx.rng.unit()), 3.0 * cx.rng.unit()),
            0 => polar(1.0, -2.0 * PI / m.max(1) as f64),
            1 if !big => polar(0.9 + 0.2 * cx.rng.unit().abs(), 6.0 * cx.rng.unit()),
            _ => polar(1.0, 3.0 * cx.rng.unit()),
        };
        let a = match cx.rng.below(5) {
            _ if extreme => polar(far, 3.0 * cx.rng.unit()),
            0 => (0.0, 0.0),
            1 => (1.0, 0.0),
            2 if !big => polar(0.7 + cx.rng.unit().abs(), 3.0 * cx.rng.unit()),
            3 if !big => polar(2.0 + cx.rng.unit(), 3.0 * cx.rng.unit()),
            _ => polar(1.0, 3.0 * cx.rng.unit()),
        };
        cx.check("czt", &format!("czt n={n} m={m} w={w:?} a={a:?} seed={} round={round}", cx.seed), |_| {
            let y = czt_f32(&v32(&x), m, w, a);
            if y.len() != m {
                return Err(format!("{} points, contract {m}", y.len()));
            }
            let (wr, wi) = (w.0 as f64, w.1 as f64);
            let d = (a.0 as f64).powi(2) + (a.1 as f64).powi(2);
            let ai = if d == 0.0 { (0.0, 0.0) } else { (a.0 as f64 / d, -(a.1 as f64) / d) };
            for k in 0..m {
                let mut wk = (1.0, 0.0);
                for _ in 0..k {
                    wk = cmul(wk, (wr, wi));
                }
                let z = cmul(ai, wk);
                let mut p = (1.0, 0.0);
                let mut acc = (0.0, 0.0);
                let mut mag = 0.0;
                for (i, &v) in x.iter().enumerate() {
                    acc.0 += v * p.0;
                    acc.1 += v * p.1;
                    mag += (v.abs() + 1e-3) * (p.0.hypot(p.1)) * (1.0 + i as f64 * (k as f64 + 2.0));
                    p = cmul(p, z);
                }
                let al = 1e-6 * mag + 1e-6;
                if !((y[k].0 as f64 - acc.0).abs() <= al && (y[k].1 as f64 - acc.1).abs() <= al) {
                    return Err(format!("point {k}: got {:?}, contract {:?} (allowed {al:e})", y[k], acc));
                }
            }
            Ok(())
        });
        // Goertzel
        let n = if round % 4 == 0 { 1 << cx.rng.range(0, 7) } else { cx.rng.range(1, 120) };
        let x = match round % 3 {
            0 => rand_r(&mut cx.rng, n),
            1 => {
                let k0 = cx.rng.below(n);
                (0..n).map(|i| (2.0 * PI * (i * k0 % n) as f64 / n as f64 + 0.3).cos() as f32 as f64).collect()
            }
            _ => {
                let c = cx.rng.f32() as f64;
                vec![c; n]
            }
        };
        let kk = cx.rng.range(0, n + n / 2) as f64;
        let exact = n.is_power_of_two() && cx.rng.bool();
        let (rate, freq) = if exact {
            (8192.0f32, (kk * 8192.0 / n as f64) as f32)
        } else {
            let rate = (100.0 + 40000.0 * cx.rng.unit().abs()) as f32;
            let fr = 0.5 + 0.3 * cx.rng.unit();
            (rate, ((kk + fr) * rate as f64 / n as f64) as f32)
        };
        cx.check("goertzel", &format!("goertzel n={n} rate={rate} freq={freq} bin={kk} signal-kind={} seed={} round={round}", round % 3, cx.seed), |_| {
            let got = goertzel_f32(&v32(&x), rate, freq).map_err(|e| format!("Err({e:?})"))? as f64;
            let mut acc = (0.0, 0.0);
            for (i, &v) in x.iter().enumerate() {
                let r = root((i * kk as usize) % n, n, -1.0);
                acc.0 += v * r.0;
                acc.1 += v * r.1;
            }
            let want = acc.0.hypot(acc.1);
            // conditioning of the recurrence
            let om = 2.0 * PI * kk / n as f64;
            let (mut s1, mut s2, mut mx) = (0.0f64, 0.0, 1e-6f64);
            for &v in &x {
                let t = v + 2.0 * om.cos() * s1 - s2;
                s2 = s1;
                s1 = t;
                mx = mx.max(t.abs());
            }
            let amp = n as f64 / om.sin().abs().max(1.0 / n as f64).min(1.0);
            let perr = 1.2e-7 * mx * mx * (16.0 + 4.0 * amp.min((n * n) as f64));
            let al = if want > 0.0 { (perr / want).min(perr.sqrt()) } else { perr.sqrt() } + 1e-5;
            if !((got - want).abs() <= al) {
                return Err(format!("got {got}, contract {want} (allowed {al:e})"));
            }
            Ok(())
        });
    }
    for (x, r, f, want) in [
        (vec![], 8000.0f32, 100.0f32, FftError::EmptyInput),
        (vec![], 0.0, 100.0, FftError::EmptyInput),
        (vec![1.0f32, 2.0], 0.0, 100.0, FftError::InvalidValue),
        (vec![1.0, 2.0], -0.0, 100.0, FftError::InvalidValue),
        (vec![1.0, 2.0], -1.0, 100.0, FftError::InvalidValue),
        (vec![1.0], f32::NEG_INFINITY, 100.0, FftError::InvalidValue),
        (vec![1.0; 16], -1e-30, 100.0, FftError::InvalidValue),
    ] {
        cx.check("goertzel-rejects", &format!("n={} rate={r}", x.len()), |_| match goertzel_f32(&x, r, f) {
            Err(e) if e == want => Ok(()),
            r => Err(format!("got {r:?}, contract {want:?}")),
        });
    }
}

pub fn c17(cx: &mut Ctx) {
    use kofft::hilbert::hilbert_analytic;
    let top = if cx.thorough { 14 } else { 12 };
    for p in 0..=top {
        let n = 1usize << p;
        for rep in 0..if n <= 256 { 12 } else { 3 } {
            let x = match rep % 3 {
                0 => rand_r(&mut cx.rng, n),
                1 => {
                    let k = cx.rng.below(n);
                    (0..n).map(|i| (root(i * k % n, n, 1.0).0 + 0.25) as f32 as f64).collect()
                }
                _ => {
                    let q = cx.rng.below(n);
                    (0..n).map(|i| if i == q { 1.0 } else { 0.0 }).collect::<Vec<f64>>()
                }
            };
            cx.check("analytic", &format!("n={n} signal-kind={} seed={}", rep % 3, cx.seed), |_| {
                let y = hilbert_analytic(&v32(&x)).map_err(|e| format!("Err({e:?})"))?;
                if y.len() != n {
                    return Err(format!("length {}", y.len()));
                }
                let xs = dft(&x.iter().map(|&v| (v, 0.0)).collect::<Vec<_>>(), -1.0);
                let ys = dft(&of_c(&y), -1.0);
                let s = rms(&xs).max(1e-9);
                for k in 0..n {
                    let g = if k == 0 || 2 * k == n {
                        1.0
                    } else if 2 * k < n {
                        2.0
                    } else {
                        0.0
                    };
                    let d = (ys[k].0 - g * xs[k].0).hypot(ys[k].1 - g * xs[k].1);
                    // a pure tone has all its energy in two bins
                    if !(d <= (tol::<f32>(n) * 4.0) * s * (1.0 + (n as f64).sqrt() * 0.05)) {
                        return Err(format!("spectrum bin {k}: got ({:e},{:e}), contract {g} x ({:e},{:e})", ys[k].0, ys[k].1, xs[k].0, xs[k].1));
                    }
                }
                Ok(())
            });
        }
    }
    for n in [0usize, 3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 31, 33, 48, 63, 65, 96, 100, 127, 129, 192, 255, 257, 768, 1000, 1023, 1025] {
        cx.check("rejects", &format!("n={n}"), |_| {
            let want = if n == 0 { FftError::EmptyInput } else { FftError::NonPowerOfTwoNoStd };
            match hilbert_analytic(&vec![0.5; n]) {
                Err(e) if e == want => Ok(()),
                r => Err(format!("{:?}", r.map(|v| v.len()))),
            }
        });
    }
}

/// (triangle edges, undecided)
fn mel_edges(n: usize, sr: f64, nf: usize) -> Option<Vec<usize>> {
    let mmax = 2595.0 * (1.0 + sr / 2.0 / 700.0f64).log10();
    let mut b = vec![];
    for i in 0..nf + 2 {
        let mel = mmax * i as f64 / (nf + 1) as f64;
        let f = 700.0 * (10f64.powf(mel / 2595.0) - 1.0);
        let p = f * (n as f64 + 1.0) / sr;
        if i > 0 && (p - p.round()).abs() < 1e-3 + 2e-6 * n as f64 {
            return None;
        }
        b.push(p.floor() as usize);
    }
    Some(b)
}
fn ref_mel(mags: &[f64], b: &[usize], nf: usize) -> Vec<f64> {
    (0..nf)
        .map(|j| {
            let (l, c, r) = (b[j], b[j + 1], b[j + 2]);
            if l == c || c == r {
                return 0.0;
            }
            let mut e = 0.0;
            for k in l..r {
                if k < mags.len() {
                    let w = if k < c { (k - l) as f64 / (c - l) as f64 } else { (r - k) as f64 / (r - c) as f64 };
                    e += w * mags[k];
                }
            }
            e
        })
        .collect()
}

pub fn c18(cx: &mut Ctx) {
    use kofft::cepstrum::*;
    for p in 0..=if cx.thorough { 13 } else { 11 } {
        let n = 1usize << p;
        for rep in 0..if n <= 256 { 10 } else { 3 } {
            let mut x = rand_r(&mut cx.rng, n);
            if rep % 3 == 2 {
                let q = cx.rng.below(n);
                x = (0..n).map(|i| if i == q { 0.5 } else { 0.0 }).collect();
            }
            cx.check("cepstrum", &format!("n={n} kind={} seed={}", rep % 3, cx.seed), |_| {
                let y = real_cepstrum(&v32(&x)).map_err(|e| format!("Err({e:?})"))?;
                let xs = dft(&x.iter().map(|&v| (v, 0.0)).collect::<Vec<_>>(), -1.0);
                let s = rms(&xs).max(1e-9);
                let mut slack = 1e-4;
                let lg: Vec<C64> = xs
                    .iter()
                    .map(|c| {
                        let m = c.0.hypot(c.1);
                        let d = tol::<f32>(n) * s;
                        slack += (if d < m { (m / (m - d)).ln() } else { 30.0 }) * 2.0 / n as f64;
                        ((m + 1e-12).ln(), 0.0)
                    })
                    .collect();
                let want: Vec<f64> = idft(&lg).iter().map(|c| c.0).collect();
                near_abs(&v64(&y), &want, slack)
            });
        }
    }
    for n in [0usize, 3, 5, 6, 12, 100] {
        cx.check("cepstrum-rejects", &format!("n={n}"), |_| {
            let want = if n == 0 { FftError::EmptyInput } else { FftError::NonPowerOfTwoNoStd };
            match real_cepstrum(&vec![0.5; n]) {
                Err(e) if e == want => Ok(()),
                r => Err(format!("{:?}", r.map(|v| v.len()))),
            }
        });
    }
    let rounds = if cx.thorough { 6000 } else { 1500 };
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let n = 2 * cx.rng.range(0, if round % 3 == 0 { 300 } else { 40 });
        let sr = *[8000.0, 16000.0, 22050.0, 44100.0, 48000.0, 11025.0].get(cx.rng.below(6)).unwrap();
        let nf = cx.rng.range(0, 30);
        let nc = cx.rng.range(0, nf + 2);
        let mags: Vec<f64> = rand_r(&mut cx.rng, n).iter().map(|v| v.abs()).collect();
        let case = format!("bins={n} rate={sr} filters={nf} coeffs={nc} seed={} round={round}", cx.seed);
        let m32 = v32(&mags);
        let edges = mel_edges(n, sr, nf);
        if let Some(b) = &edges {
            let want = ref_mel(&mags, b, nf);
            cx.check("mel", &case, |_| near_abs(&v64(&mel_filterbank(&m32, sr as f32, nf)), &want, 1e-5 * (n as f64 + 1.0)));
            cx.check("mfcc", &case, |_| {
                let r = mfcc(&m32, sr as f32, nf, nc);
                if nc > nf {
                    return match r {
                        Err(FftError::InvalidValue) => Ok(()),
                        r => Err(format!("{:?}", r.map(|v| v.len()))),
                    };
                }
                let lg: Vec<f64> = want.iter().map(|&e| ((e as f32 + 1e-12) as f64).ln()).collect();
                let w: Vec<f64> = rdct(2, &lg)[..nc].to_vec();
                let sc = lg.iter().map(|v| v.abs()).sum::<f64>();
                // energies near zero make the logarithm ill conditioned
                let cond: f64 = want.iter().map(|&e| if e > 1e-4 { 1e-4 } else if e == 0.0 { 0.0 } else { 20.0 }).sum();
                near_abs(&v64(&r.map_err(|e| format!("Err({e:?})"))?), &w, 1e-5 * sc + 1e-4 + cond)
            });
        } else {
            cx.check("mel-count", &case, |_| {
                let e = mel_filterbank(&m32, sr as f32, nf);
                if e.len() == nf {
                    Ok(())
                } else {
                    Err(format!("{} energies", e.len()))
                }
            });
        }
        let bl = cx.rng.range(0, 5);
        let badlen = cx.rng.below(3);
        cx.check("mfcc-batch", &case, |_| {
            let b: Vec<Vec<f32>> = (0..bl).map(|i| m32.iter().map(|v| v * (i as f32 + 0.5)).take(n - if i == badlen { n / 2 } else { 0 }).collect()).collect();
            let r = mfcc_batch(&b, sr as f32, nf, nc);
            if bl > 0 && nc > nf {
                return if r == Err(FftError::InvalidValue) { Ok(()) } else { Err(format!("{:?}", r.map(|v| v.len()))) };
            }
            let r = r.map_err(|e| format!("Err({e:?})"))?;
            if r.len() != bl {
                return Err(format!("{} frames, contract {bl}", r.len()));
            }
            for i in 0..bl {
                let one = mfcc(&b[i], sr as f32, nf, nc).map_err(|e| format!("Err({e:?})"))?;
                if one.len() != nc || r[i].len() != nc || one.iter().zip(&r[i]).any(|(a, b)| (a - b).abs() > 1e-3 * (1.0 + a.abs())) {
                    return Err(format!("frame {i} differs from the single-frame result"));
                }
            }
            Ok(())
        });
    }
}
