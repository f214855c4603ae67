//! Monitors for windows, wavelets, layouts, arithmetic, media and build helpers: C19-C27.
use crate::ctx::*;
use crate::num::*;
use kofft::num::{copy_from_complex, copy_to_complex, Complex, Complex32, ComplexVec, SplitComplex};
use std::f64::consts::PI;

// ---------------------------------------------------------------- windows

fn i0(x: f64) -> f64 {
    let y = x * x / 4.0;
    let (mut t, mut s) = (1.0, 1.0);
    for k in 1..200 {
        t *= y / (k as f64 * k as f64);
        s += t;
    }
    s
}
/// true: periodic form (centre n/2), false: symmetric form (centre (n-1)/2)
type Win = (&'static str, bool, Box<dyn Fn(usize) -> Vec<f32>>, Box<dyn Fn(usize, usize) -> f64>);

fn windows() -> Vec<Win> {
    use kofft::window::*;
    use kofft::window_more::*;
    let c = |x: f64| (2.0 * PI * x).cos();
    let mut v: Vec<Win> = vec![
        ("hann", true, Box::new(hann), Box::new(move |i, n| 0.5 - 0.5 * c(i as f64 / n as f64))),
        ("hamming", true, Box::new(hamming), Box::new(move |i, n| 0.54 - 0.46 * c(i as f64 / n as f64))),
        ("blackman", true, Box::new(blackman), Box::new(move |i, n| 0.42 - 0.5 * c(i as f64 / n as f64) + 0.08 * c(2.0 * i as f64 / n as f64))),
        ("bartlett", false, Box::new(bartlett), Box::new(|i, n| 1.0 - (2.0 * i as f64 / (n - 1) as f64 - 1.0).abs())),
        (
            "bohman",
            false,
            Box::new(bohman),
            Box::new(|i, n| {
                let x = (2.0 * i as f64 / (n - 1) as f64 - 1.0).abs();
                (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI
            }),
        ),
        (
            "nuttall",
            false,
            Box::new(nuttall),
            Box::new(move |i, n| {
                let x = i as f64 / (n - 1) as f64;
                0.355768 - 0.487396 * c(x) + 0.144232 * c(2.0 * x) - 0.012604 * c(3.0 * x)
            }),
        ),
    ];
    for beta in [0.0f32, 0.5, 2.0, 5.0, 8.6, 12.0] {
        v.push((
            "kaiser",
            false,
            Box::new(move |n| kaiser(n, beta)),
            Box::new(move |i, n| {
                let m = (n - 1) as f64 / 2.0;
                let r = (i as f64 - m) / m;
                i0(beta as f64 * (1.0 - r * r).max(0.0).sqrt()) / i0(beta as f64)
            }),
        ));
    }
    for alpha in [-0.5f32, 0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0, 1.7] {
        v.push((
            "tukey",
            false,
            Box::new(move |n| tukey(n, alpha)),
            Box::new(move |i, n| {
                let a = (alpha as f64).clamp(0.0, 1.0);
                let taper = a * (n - 1) as f64 / 2.0;
                let d = (i as f64).min((n - 1) as f64 - i as f64);
                if d < taper {
                    0.5 * (1.0 + (PI * (d / taper - 1.0)).cos())
                } else {
                    1.0
                }
            }),
        ));
    }
    v
}

pub fn c19(cx: &mut Ctx) {
    use kofft::window::*;
    let ws = windows();
    for n in cx.lengths(if cx.thorough { 300 } else { 150 }, if cx.thorough { 20000 } else { 5000 }, 10) {
        if n < 2 {
            continue;
        }
        for (name, periodic, f, r) in &ws {
            let probe: Vec<f64> = (0..n.min(3)).map(|i| r(i, n)).collect();
            cx.check("closed-form", &format!("{name} n={n} (first contract samples {probe:?})"), |_| {
                let w = f(n);
                let want: Vec<f64> = (0..n).map(|i| r(i, n)).collect();
                // a taper edge that rounds to the other side still gives a continuous value
                near_abs(&v64(&w), &want, 3e-5 + 1e-8 * n as f64)?;
                for i in 0..n {
                    let j = if *periodic { (n - i) % n } else { n - 1 - i };
                    if (w[i] - w[j]).abs() > 3e-5 {
                        return Err(format!("not symmetric: w[{i}]={} w[{j}]={}", w[i], w[j]));
                    }
                }
                Ok(())
            });
        }
    }
    for (name, _, f, _) in &ws {
        if *name != "kaiser" {
            cx.check("length", &format!("{name} of length 0 and 1"), |_| if f(0).is_empty() && f(1).len() == 1 { Ok(()) } else { Err("wrong length".into()) });
        }
    }
    fn st<const N: usize>(cx: &mut Ctx) {
        for (name, f, h) in [
            ("hann_inplace_stack", hann_inplace_stack::<N> as fn(&mut [f32; N]), hann as fn(usize) -> Vec<f32>),
            ("hamming_inplace_stack", hamming_inplace_stack::<N>, hamming),
            ("blackman_inplace_stack", blackman_inplace_stack::<N>, blackman),
        ] {
            cx.check("stack", &format!("{name}<{N}>"), |_| {
                let mut a = [f32::NAN; N];
                f(&mut a);
                near_abs(&v64(&a), &v64(&h(N)), 2e-6)
            });
        }
    }
    macro_rules! each { ($($n:literal)*) => { $( st::<$n>(cx); )* } }
    each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 24 31 32 33 48 63 64 65 100 127 128 129 200 255 256 257 500 512 1000 1024 2048);
}

// ---------------------------------------------------------------- wavelets

type Fwd = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
type Inv = fn(&[f32], &[f32]) -> Vec<f32>;
struct Fam {
    name: &'static str,
    f: Fwd,
    i: Inv,
    fm: fn(&[f32], usize) -> (Vec<f32>, Vec<Vec<f32>>),
    im: fn(&[f32], &[Vec<f32>]) -> Vec<f32>,
    h: Vec<f64>,
    g: Vec<f64>,
}
fn fams() -> Vec<Fam> {
    use kofft::wavelet::*;
    fn qmf(h: &[f64]) -> Vec<f64> {
        let n = h.len();
        (0..n).map(|k| if k % 2 == 0 { h[n - 1 - k] } else { -h[n - 1 - k] }).collect()
    }
    let mut v = vec![];
    let db2 = vec![0.4829629131445341, 0.8365163037378079, 0.2241438680420134, -0.1294095225512604];
    v.push(Fam { name: "db2", f: db2_forward, i: db2_inverse, fm: db2_forward_multi, im: db2_inverse_multi, g: qmf(&db2), h: db2 });
    let db4 = vec![
        -0.010597401785069032,
        0.0328830116668852,
        0.030841381835560764,
        -0.18703481171909309,
        -0.027983769416859854,
        0.6308807679298589,
        0.7148465705529157,
        0.2303778133088965,
    ];
    v.push(Fam { name: "db4", f: db4_forward, i: db4_inverse, fm: db4_forward_multi, im: db4_inverse_multi, g: qmf(&db4).iter().map(|v| -v).collect(), h: db4 });
    let sym4 = vec![
        -0.07576571478927333,
        -0.02963552764599851,
        0.49761866763201545,
        0.8037387518059161,
        0.29785779560527736,
        -0.09921954357684722,
        -0.012603967262037833,
        0.0322231006040427,
    ];
    v.push(Fam { name: "sym4", f: sym4_forward, i: sym4_inverse, fm: sym4_forward_multi, im: sym4_inverse_multi, g: qmf(&sym4).iter().map(|v| -v).collect(), h: sym4 });
    let coif1 = vec![-0.015655728135791993, -0.07273261951252645, 0.3848648468648578, 0.8525720202116004, 0.3378976624574818, -0.07273261951252645];
    v.push(Fam { name: "coif1", f: coif1_forward, i: coif1_inverse, fm: coif1_forward_multi, im: coif1_inverse_multi, g: qmf(&coif1).iter().map(|v| -v).collect(), h: coif1 });
    v
}
fn refl(mut i: i64, n: i64) -> usize {
    if n == 1 {
        return 0;
    }
    while i < 0 || i >= n {
        if i < 0 {
            i = -i;
        } else {
            i = 2 * (n - 1) - i;
        }
    }
    i as usize
}
fn ref_fwd(x: &[f64], h: &[f64], g: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let n = x.len() / 2;
    let at = |j: usize| x[refl(j as i64, x.len() as i64)];
    let f = |t: &[f64]| (0..n).map(|i| (0..t.len()).map(|k| t[k] * at(2 * i + k)).sum()).collect();
    (f(h), f(g))
}

/// Equal up to rounding (two routes to the same value may order operations differently).
fn same(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 2e-5 * (1.0 + y.abs()))
}
fn same2(a: &[Vec<f32>], b: &[Vec<f32>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
pub fn c20(cx: &mut Ctx) {
    use kofft::wavelet::*;
    let rounds = if cx.thorough { 4000 } else { 800 };
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let n = cx.rng.range(0, if round % 10 == 0 { 500 } else { 40 });
        let x = rand_r(&mut cx.rng, n);
        let x32 = v32(&x);
        cx.check("haar", &format!("n={n} seed={} round={round}", cx.seed), |_| {
            let (a, d) = haar_forward(&x32);
            let wa: Vec<f64> = (0..n / 2).map(|i| (x[2 * i] + x[2 * i + 1]) / 2.0).collect();
            let wd: Vec<f64> = (0..n / 2).map(|i| (x[2 * i] - x[2 * i + 1]) / 2.0).collect();
            near_abs(&v64(&a), &wa, 1e-6)?;
            near_abs(&v64(&d), &wd, 1e-6)?;
            near_abs(&v64(&haar_inverse(&a, &d)), &x[..n / 2 * 2], 1e-6)
        });
        let lv = cx.rng.range(0, 6);
        cx.check("multi-level", &format!("haar n={n} levels={lv} seed={} round={round}", cx.seed), |_| {
            let mut cur = x.clone();
            let mut det = vec![];
            for _ in 0..lv {
                if cur.len() % 2 == 1 {
                    cur.push(*cur.last().unwrap());
                }
                det.push((0..cur.len() / 2).map(|i| (cur[2 * i] - cur[2 * i + 1]) / 2.0).collect::<Vec<f64>>());
                cur = (0..cur.len() / 2).map(|i| (cur[2 * i] + cur[2 * i + 1]) / 2.0).collect();
            }
            for (a, d) in [haar_forward_multi(&x32, lv), multi_level_forward(&x32, lv, haar_forward)] {
                near_abs(&v64(&a), &cur, 1e-5).map_err(|m| format!("approximation: {m}"))?;
                if d.len() != lv {
                    return Err(format!("{} detail levels", d.len()));
                }
                for l in 0..lv {
                    near_abs(&v64(&d[l]), &det[l], 1e-5).map_err(|m| format!("detail {l}: {m}"))?;
                }
                for r in [haar_inverse_multi(&a, &d), multi_level_inverse(&a, &d, haar_inverse)] {
                    if n % (1 << lv) == 0 && r.len() != n {
                        return Err(format!("reconstruction has {} of {n} samples", r.len()));
                    }
                    if r.len() < n {
                        return Err(format!("reconstruction has {} of {n} samples", r.len()));
                    }
                    near_abs(&v64(&r[..n]), &x, 1e-5)?;
                }
            }
            Ok(())
        });
        let items: Vec<Vec<f64>> = (0..cx.rng.range(0, 5))
            .map(|_| {
                let l = cx.rng.range(0, 16);
                rand_r(&mut cx.rng, l)
            })
            .collect();
        cx.check("batch", &format!("haar batch lengths {:?} levels={lv} round={round}", items.iter().map(|v| v.len()).collect::<Vec<_>>()), |_| {
            let b: Vec<Vec<f32>> = items.iter().map(|v| v32(v)).collect();
            let (a, d) = batch_forward(&b);
            let r = batch_inverse(&a, &d);
            let (ma, md) = multi_level_forward_batch(&b, lv, haar_forward);
            let mr = multi_level_inverse_batch(&ma, &md, haar_inverse);
            if [a.len(), d.len(), r.len(), ma.len(), md.len(), mr.len()].iter().any(|&l| l != b.len()) {
                return Err("number of items changed".into());
            }
            for i in 0..b.len() {
                let one = haar_forward(&b[i]);
                if !same(&a[i], &one.0) || !same(&d[i], &one.1) || !same(&r[i], &haar_inverse(&one.0, &one.1)) {
                    return Err(format!("item {i} differs from the single form"));
                }
                let one = haar_forward_multi(&b[i], lv);
                if !same(&ma[i], &one.0) || !same2(&md[i], &one.1) || !same(&mr[i], &haar_inverse_multi(&one.0, &one.1)) {
                    return Err(format!("item {i} differs from the multi-level form"));
                }
            }
            Ok(())
        });
    }
    fn st<const N: usize>(cx: &mut Ctx) {
        let x = rand_r(&mut cx.rng, N);
        cx.check("stack", &format!("haar stack <{N}> seed={}", cx.seed), |_| {
            let mut a = [0f32; N];
            for i in 0..N {
                a[i] = x[i] as f32;
            }
            let (mut av, mut d) = (vec![f32::NAN; N / 2], vec![f32::NAN; N / 2]);
            haar_forward_inplace_stack(&a, &mut av, &mut d);
            let (wa, wd) = haar_forward(&a);
            near_abs(&v64(&av), &v64(&wa), 1e-6)?;
            near_abs(&v64(&d), &v64(&wd), 1e-6)?;
            let mut o = vec![f32::NAN; N / 2 * 2];
            haar_inverse_inplace_stack::<N>(&av, &d, &mut o);
            near_abs(&v64(&o), &x[..N / 2 * 2], 1e-6)
        });
    }
    macro_rules! each { ($($n:literal)*) => { $( st::<$n>(cx); )* } }
    for _ in 0..4 {
        each!(0 1 2 3 4 5 6 7 8 10 12 15 16 20 32 64 100 256);
    }
}

pub fn c21(cx: &mut Ctx) {
    use kofft::wavelet::*;
    let rounds = if cx.thorough { 3000 } else { 600 };
    let fs = fams();
    for round in 0..rounds {
        if cx.out_of_time() {
            return;
        }
        let n = 2 * if round % 10 == 0 { cx.rng.range(0, 300) } else { cx.rng.range(0, 24) };
        let x = rand_r(&mut cx.rng, n);
        let x32 = v32(&x);
        let lv = cx.rng.range(0, 5);
        let items: Vec<Vec<f32>> = (0..cx.rng.range(0, 5))
            .map(|_| {
                let l = 2 * cx.rng.range(0, 12);
                v32(&rand_r(&mut cx.rng, l))
            })
            .collect();
        for fm in &fs {
            let case = format!("{} n={n} seed={} round={round}", fm.name, cx.seed);
            cx.check("analysis", &case, |_| {
                let (a, d) = (fm.f)(&x32);
                let (wa, wd) = ref_fwd(&x, &fm.h, &fm.g);
                near_abs(&v64(&a), &wa, 1e-5).map_err(|m| format!("approximation: {m}"))?;
                near_abs(&v64(&d), &wd, 1e-5).map_err(|m| format!("detail: {m}"))
            });
            cx.check("reconstruction", &case, |_| {
                let (a, d) = (fm.f)(&x32);
                let r = (fm.i)(&a, &d);
                if r.len() != n {
                    return Err(format!("{} samples, contract {n}", r.len()));
                }
                let l = fm.h.len();
                for t in l..n.saturating_sub(l) {
                    if !((r[t] as f64 - x[t]).abs() <= 2e-5) {
                        return Err(format!("sample {t}: got {}, contract {}", r[t], x[t]));
                    }
                }
                Ok(())
            });
            cx.check("multi-level", &format!("{case} levels={lv}"), |_| {
                let mut cur = x32.clone();
                let mut det = vec![];
                for _ in 0..lv {
                    if cur.len() % 2 == 1 {
                        cur.push(*cur.last().unwrap());
                    }
                    let (a, d) = (fm.f)(&cur);
                    det.push(d);
                    cur = a;
                }
                let (a, d) = (fm.fm)(&x32, lv);
                if !same(&a, &cur) || !same2(&d, &det) {
                    return Err("multi-level analysis differs from repeated single steps".into());
                }
                let mut r = a.clone();
                for d in d.iter().rev() {
                    r.truncate(d.len());
                    r = (fm.i)(&r, d);
                }
                if !same(&(fm.im)(&a, &d), &r) || !same(&multi_level_inverse(&a, &d, fm.i), &r) {
                    return Err("multi-level synthesis differs from repeated single steps".into());
                }
                let (ba, bd) = multi_level_forward_batch(&items, lv, fm.f);
                let br = multi_level_inverse_batch(&ba, &bd, fm.i);
                if ba.len() != items.len() || bd.len() != items.len() || br.len() != items.len() {
                    return Err("number of items changed".into());
                }
                for i in 0..items.len() {
                    let one = (fm.fm)(&items[i], lv);
                    if !same(&ba[i], &one.0) || !same2(&bd[i], &one.1) || !same(&br[i], &(fm.im)(&one.0, &one.1)) {
                        return Err(format!("batch item {i} differs"));
                    }
                }
                Ok(())
            });
        }
        cx.check("batch", &format!("db2 batch round={round}"), |_| {
            let (a, d) = db2_forward_batch(&items);
            let r = db2_inverse_batch(&a, &d);
            if a.len() != items.len() || d.len() != items.len() || r.len() != items.len() {
                return Err("number of items changed".into());
            }
            for i in 0..items.len() {
                let one = db2_forward(&items[i]);
                if !same(&a[i], &one.0) || !same(&d[i], &one.1) || !same(&r[i], &db2_inverse(&one.0, &one.1)) {
                    return Err(format!("item {i} differs"));
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- layouts and arithmetic

pub fn c22(cx: &mut Ctx) {
    fn odd32(cx: &mut Ctx) -> f32 {
        match cx.rng.below(8) {
            0 => f32::from_bits(0x7fc0_0000 | (cx.rng.next() as u32 & 0xffff)),
            1 => f32::NEG_INFINITY,
            2 => -0.0,
            3 => f32::from_bits(1),
            _ => f32::from_bits(cx.rng.next() as u32),
        }
    }
    fn eq(a: f32, b: f32) -> bool {
        a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
    }
    let rounds = if cx.thorough { 20000 } else { 4000 };
    for round in 0..rounds {
        let n = cx.rng.range(0, if round % 20 == 0 { 400 } else { 20 });
        let v: Vec<Complex32> = (0..n).map(|_| Complex::new(odd32(cx), odd32(cx))).collect();
        let case = format!("n={n} seed={} round={round}", cx.seed);
        cx.check("convert", &case, |_| {
            let same = |re: &[f32], im: &[f32], what: &str| {
                if re.len() != n || im.len() != n {
                    return Err(format!("{what}: {} / {} elements, contract {n}", re.len(), im.len()));
                }
                for i in 0..n {
                    if !eq(re[i], v[i].re) || !eq(im[i], v[i].im) {
                        return Err(format!("{what}: element {i} is ({}, {}), contract ({}, {})", re[i], im[i], v[i].re, v[i].im));
                    }
                }
                Ok(())
            };
            let samec = |c: &[Complex32], what: &str| same(&c.iter().map(|c| c.re).collect::<Vec<_>>(), &c.iter().map(|c| c.im).collect::<Vec<_>>(), what);
            let (mut re, mut im) = (vec![1f32; n], vec![2f32; n]);
            copy_from_complex(&v, &mut re, &mut im);
            same(&re, &im, "copy_from_complex")?;
            let mut o = vec![Complex::new(5f32, 6.0); n];
            copy_to_complex(&re, &im, &mut o);
            samec(&o, "copy_to_complex")?;
            let (mut r2, mut i2) = (vec![1f32; n], vec![2f32; n]);
            {
                let sp = SplitComplex::copy_from_complex(&v, &mut r2, &mut i2);
                if sp.len() != n || sp.is_empty() != (n == 0) {
                    return Err("SplitComplex length".into());
                }
                same(sp.re, sp.im, "SplitComplex::copy_from_complex")?;
                let mut o = vec![Complex::new(5f32, 6.0); n];
                sp.copy_to_complex(&mut o);
                samec(&o, "SplitComplex::copy_to_complex")?;
            }
            same(&r2, &i2, "SplitComplex storage")?;
            let cv = ComplexVec::from_complex_vec(&v);
            same(&cv.re, &cv.im, "ComplexVec::from_complex_vec")?;
            if cv.len() != n || cv.is_empty() != (n == 0) {
                return Err("ComplexVec length".into());
            }
            samec(&cv.to_complex_vec(), "ComplexVec::to_complex_vec")?;
            let (a, b) = cv.as_slices();
            same(a, b, "as_slices")?;
            let mut cv = ComplexVec::from(v.clone());
            same(&cv.re, &cv.im, "ComplexVec::from")?;
            let (a, b) = cv.as_mut_slices();
            same(a, b, "as_mut_slices")?;
            let back: Vec<Complex32> = cv.into();
            samec(&back, "Vec::from(ComplexVec)")?;
            let cv = ComplexVec::new(re.clone(), im.clone());
            same(&cv.re, &cv.im, "ComplexVec::new")?;
            // generic scalar
            let w: Vec<Complex<f64>> = v.iter().map(|c| Complex::new(c.re as f64, c.im as f64)).collect();
            let (mut re, mut im) = (vec![1f64; n], vec![2f64; n]);
            copy_from_complex(&w, &mut re, &mut im);
            for i in 0..n {
                if re[i].to_bits() != w[i].re.to_bits() || im[i].to_bits() != w[i].im.to_bits() {
                    return Err(format!("f64 element {i}"));
                }
            }
            Ok(())
        });
        // refused lengths
        let (a, b, c) = (n, cx.rng.below(n + 3), cx.rng.below(n + 3));
        if b != a || c != a {
            cx.check("mismatch", &format!("complex={a} re={b} im={c}"), |_| {
                use std::panic::{catch_unwind, AssertUnwindSafe};
                let z = Complex::new(5f32, 6.0);
                let src = vec![z; a];
                let (mut re, mut im) = (vec![1f32; b], vec![2f32; c]);
                let r = catch_unwind(AssertUnwindSafe(|| copy_from_complex(&src, &mut re, &mut im)));
                if r.is_ok() || re.iter().any(|&v| v != 1.0) || im.iter().any(|&v| v != 2.0) {
                    return Err("copy_from_complex copied mismatched lengths".into());
                }
                let mut o = vec![z; a];
                let r = catch_unwind(AssertUnwindSafe(|| copy_to_complex(&re, &im, &mut o)));
                if r.is_ok() || o.iter().any(|v| v.re != 5.0 || v.im != 6.0) {
                    return Err("copy_to_complex copied mismatched lengths".into());
                }
                if b != c {
                    if catch_unwind(AssertUnwindSafe(|| ComplexVec::new(re.clone(), im.clone()))).is_ok() {
                        return Err("ComplexVec::new accepted mismatched parts".into());
                    }
                    if catch_unwind(AssertUnwindSafe(|| {
                        SplitComplex::new(&mut re, &mut im);
                    }))
                    .is_ok()
                    {
                        return Err("SplitComplex::new accepted mismatched parts".into());
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn c23(cx: &mut Ctx) {
    fn go<T: Sc>(cx: &mut Ctx, rounds: usize) {
        let sp = [0.0, 1.0, -1.0, 0.5, -2.0, 3.0];
        for round in 0..rounds {
            let mut r = |cx: &mut Ctx| {
                let v = if cx.rng.below(4) == 0 { sp[cx.rng.below(6)] } else { cx.rng.f32() as f64 * [1.0, 100.0, 0.01][cx.rng.below(3)] };
                T::of(v)
            };
            let (a, b) = (Complex::new(r(cx), r(cx)), Complex::new(r(cx), r(cx)));
            let th = r(cx);
            cx.check("arithmetic", &format!("{} a=({}, {}) b=({}, {}) theta={} round={round}", T::NAME, a.re.f(), a.im.f(), b.re.f(), b.im.f(), th.f()), |_| {
                let (ar, ai, br, bi) = (a.re.f(), a.im.f(), b.re.f(), b.im.f());
                let ok = |got: Complex<T>, w: C64, s: f64, what: &str| {
                    let t = 8.0 * T::EPS * s + 1e-300;
                    if (got.re.f() - w.0).abs() <= t && (got.im.f() - w.1).abs() <= t {
                        Ok(())
                    } else {
                        Err(format!("{what}: got ({:e}, {:e}), contract ({:e}, {:e})", got.re.f(), got.im.f(), w.0, w.1))
                    }
                };
                let s = ar.abs() + ai.abs() + br.abs() + bi.abs();
                let p = (ar.abs() + ai.abs()) * (br.abs() + bi.abs());
                ok(a.add(b), (ar + br, ai + bi), s, "add")?;
                ok(a + b, (ar + br, ai + bi), s, "+")?;
                ok(a.sub(b), (ar - br, ai - bi), s, "sub")?;
                ok(a - b, (ar - br, ai - bi), s, "-")?;
                ok(-a, (-ar, -ai), 0.0, "neg")?;
                let m = (ar * br - ai * bi, ar * bi + ai * br);
                ok(a.mul(b), m, p, "mul")?;
                ok(a * b, m, p, "*")?;
                let t = th.f();
                ok(Complex::expi(th), (t.cos(), t.sin()), 1.0 + t.abs(), "expi")?;
                ok(Complex::new(th, a.re), (t, ar), 0.0, "new")?;
                ok(Complex::zero(), (0.0, 0.0), 0.0, "zero")?;
                let c = T::from_f32(t as f32);
                if c.f() != (t as f32) as f64 {
                    return Err("from_f32".into());
                }
                let (sn, cs) = th.sin_cos();
                let e = 8.0 * T::EPS * (1.0 + t.abs());
                if (sn.f() - t.sin()).abs() > e || (cs.f() - t.cos()).abs() > e || (th.sin().f() - t.sin()).abs() > e || (th.cos().f() - t.cos()).abs() > e {
                    return Err("sin/cos/sin_cos".into());
                }
                let ma = th.mul_add(a.re, b.re);
                if (ma.f() - (t * ar + br)).abs() > 8.0 * T::EPS * (t.abs() * ar.abs() + br.abs()) + 1e-300 {
                    return Err(format!("mul_add: got {}, contract {}", ma.f(), t * ar + br));
                }
                if T::zero().f() != 0.0 || T::one().f() != 1.0 || (T::pi().f() - PI).abs() > 4.0 * T::EPS {
                    return Err("constants".into());
                }
                Ok(())
            });
        }
    }
    let r = if cx.thorough { 60000 } else { 12000 };
    go::<f32>(cx, r);
    go::<f64>(cx, r);
    go::<W>(cx, r / 4);
}

// ---------------------------------------------------------------- media index

#[cfg(not(feature = "cfg_nostd"))]
pub fn c24(cx: &mut Ctx) {
    use kofft::media::index::*;
    use std::collections::HashMap;
    use std::ffi::OsString;
    use std::os::unix::ffi::OsStringExt;
    use std::path::{Path, PathBuf};
    let base = std::env::temp_dir().join(format!("kofft-replay-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&base);
    let ident = |id: &SongId, known: &[PathBuf]| -> Option<usize> {
        let d = format!("{id:?}");
        // the path registered is the only thing an identifier carries
        known.iter().position(|p| d == format!("SongId({p:?})"))
    };
    let rounds = if cx.thorough { 400 } else { 60 };
    for round in 0..rounds {
        if cx.out_of_time() {
            break;
        }
        let dir = base.join(format!("r{round}"));
        let mut names: Vec<OsString> = ["a.mp3", "b.mp3", "c", "A.mp3", "a"].iter().map(|s| OsString::from(*s)).collect();
        names.push(OsString::from_vec(vec![0x66, 0xff, 0x31]));
        names.push(OsString::from("\u{e9}.wav"));
        let mut paths: Vec<PathBuf> = vec![];
        for d in ["x", "y", "z"] {
            for n in &names {
                paths.push(dir.join(d).join(n));
            }
        }
        paths.push(dir.join("x").join("."));
        paths.push(dir.join("x").join(".."));
        paths.push(dir.join("x"));
        for d in ["x", "y", "z"] {
            let _ = std::fs::create_dir_all(dir.join(d));
        }
        let nfile = 3 * names.len();
        // contents, some sharing long prefixes or buffer-sized lengths
        let mut pool: Vec<Vec<u8>> = vec![vec![], b"data".to_vec(), b"datb".to_vec(), vec![7; 8191], vec![7; 8192], vec![7; 8193], vec![7; 16384], vec![7; 20000]];
        let mut late = vec![7u8; 20000];
        late[19999] = 8;
        pool.push(late);
        let mut late = vec![7u8; 20000];
        late[8192] = 9;
        pool.push(late);
        let mut content: HashMap<PathBuf, Vec<u8>> = HashMap::new();
        let mut idx = SongIndex::new();
        let mut by_name: HashMap<String, PathBuf> = HashMap::new();
        let mut by_bytes: HashMap<Vec<u8>, PathBuf> = HashMap::new();
        let mut log: Vec<String> = vec![];
        let few = cx.rng.bool();
        for _ in 0..25 {
            let pi = if few { cx.rng.below(nfile.min(10)) } else { cx.rng.below(paths.len()) };
            let p = paths[pi].clone();
            let nm = format!("{}", pi);
            match cx.rng.below(6) {
                0 | 1 if pi < nfile => {
                    let k = cx.rng.below(if few { 4 } else { pool.len() });
                    std::fs::write(&p, &pool[k]).unwrap();
                    content.insert(p, pool[k].clone());
                    log.push(format!("write path#{nm} content#{k}"));
                }
                2 if pi < nfile && cx.rng.bool() => {
                    let _ = std::fs::remove_file(&p);
                    content.remove(&p);
                    log.push(format!("remove path#{nm}"));
                }
                op => {
                    let index = op >= 5;
                    log.push(format!("{} path#{nm}", if index { "index" } else { "identify" }));
                    let name = p.file_name().and_then(|s| s.to_str()).map(|s| s.to_string());
                    let expect: Option<PathBuf> = if index {
                        content.get(&p).map(|c| {
                            if let Some(n) = &name {
                                by_name.insert(n.clone(), p.clone());
                            }
                            by_bytes.insert(c.clone(), p.clone());
                            p.clone()
                        })
                    } else if let Some(q) = name.as_ref().and_then(|n| by_name.get(n)) {
                        Some(q.clone())
                    } else {
                        content.get(&p).map(|c| match by_bytes.get(c) {
                            Some(q) => q.clone(),
                            None => {
                                if let Some(n) = &name {
                                    by_name.insert(n.clone(), p.clone());
                                }
                                by_bytes.insert(c.clone(), p.clone());
                                p.clone()
                            }
                        })
                    };
                    let case = format!("round={round} seed={} history: {}", cx.seed, log.join("; "));
                    let good = cx.check("history", &case, |_| {
                        let r = if index { idx.index_song(Path::new(&p)) } else { idx.identify(Path::new(&p)) };
                        match (&r, &expect) {
                            (Err(_), None) => Ok(()),
                            (Ok(id), Some(q)) if ident(id, std::slice::from_ref(q)).is_some() => Ok(()),
                            _ => Err(format!("got {:?}, contract {:?}", r.as_ref().ok(), expect)),
                        }
                    });
                    if !good {
                        break;
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    // every byte of a long file counts
    for (k, size) in [(1usize << 16) - 1, 1 << 16, (1 << 17) + 1, 1 << 20, (1 << 20) + 7, (5 << 20) + 11].into_iter().enumerate() {
        let body: Vec<u8> = (0..size).map(|i| (i * 31 + i / 251) as u8).collect();
        let mut variants: Vec<(String, Vec<u8>)> = vec![("one byte shorter".into(), body[..size - 1].to_vec()), ("one byte longer".into(), [&body[..], &[0]].concat())];
        for pos in [0, size / 2, size - 1, cx.rng.below(size)] {
            let mut v = body.clone();
            v[pos] ^= 1 << cx.rng.below(8);
            variants.push((format!("bit flipped at {pos}"), v));
        }
        cx.check("long-files", &format!("{size} bytes"), |_| {
            let e = |e: std::io::Error| e.to_string();
            let (p, q) = (base.join(format!("long{k}")), base.join(format!("copy{k}")));
            std::fs::write(&p, &body).map_err(e)?;
            std::fs::write(&q, &body).map_err(e)?;
            let mut idx = SongIndex::new();
            let id = idx.index_song(&p).map_err(e)?;
            if idx.identify(&q).map_err(e)? != id {
                return Err("a copy got another identity".into());
            }
            for (i, (what, v)) in variants.iter().enumerate() {
                let r = base.join(format!("variant{k}-{i}"));
                std::fs::write(&r, v).map_err(e)?;
                let got = idx.identify(&r).map_err(e)?;
                if ident(&got, std::slice::from_ref(&r)).is_none() {
                    return Err(format!("{what}: identified as {got:?}"));
                }
            }
            Ok(())
        });
    }
    // a file that delivers its bytes in short reads
    cx.check("short-reads", "identify /proc/kallsyms after indexing a copy of it", |_| {
        let (Ok(a), Ok(b)) = (std::fs::read("/proc/kallsyms"), std::fs::read("/proc/kallsyms")) else { return Ok(()) };
        if a != b || a.is_empty() || a.len() > 64 << 20 {
            return Ok(());
        }
        let copy = base.join("copy-of-symbols");
        std::fs::write(&copy, &a).map_err(|e| e.to_string())?;
        let mut idx = SongIndex::new();
        let id = idx.index_song(&copy).map_err(|e| e.to_string())?;
        let got = idx.identify(Path::new("/proc/kallsyms")).map_err(|e| e.to_string())?;
        let again = std::fs::read("/proc/kallsyms").ok();
        if again.as_deref() == Some(&a[..]) && got != id {
            return Err(format!("same bytes identified as {got:?} instead of {id:?}"));
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&base);
}

// ---------------------------------------------------------------- colour maps, dB, bins

#[cfg(not(feature = "cfg_nostd"))]
pub fn c25(cx: &mut Ctx) {
    use kofft::visual::spectrogram::*;
    const MAPS: [Colormap; 7] = [Colormap::Fire, Colormap::Legacy, Colormap::Gray, Colormap::Viridis, Colormap::Plasma, Colormap::Inferno, Colormap::Rainbow];
    const FIRE: [(f64, [f64; 3]); 5] = [(0.0, [0.0, 0.0, 0.0]), (0.25, [128.0, 0.0, 128.0]), (0.5, [255.0, 165.0, 0.0]), (0.75, [255.0, 255.0, 0.0]), (1.0, [255.0, 255.0, 255.0])];
    const RAIN: [(f64, [f64; 3]); 6] =
        [(0.0, [0.0, 0.0, 0.0]), (0.25, [0.0, 0.0, 255.0]), (0.5, [0.0, 255.0, 255.0]), (0.75, [255.0, 255.0, 0.0]), (0.9, [255.0, 0.0, 0.0]), (1.0, [255.0, 255.0, 255.0])];
    fn pw(stops: &[(f64, [f64; 3])], t: f64) -> [f64; 3] {
        for w in stops.windows(2) {
            if t <= w[1].0 {
                let l = (t - w[0].0) / (w[1].0 - w[0].0);
                return [0, 1, 2].map(|c| w[0].1[c] + (w[1].1[c] - w[0].1[c]) * l);
            }
        }
        [255.0; 3]
    }
    fn want(m: Colormap, t: f32) -> [f64; 3] {
        let u = t as f64;
        let c = |c: colorous::Color| [c.r as f64, c.g as f64, c.b as f64];
        match m {
            Colormap::Fire => pw(&FIRE, u),
            Colormap::Rainbow => pw(&RAIN, u),
            Colormap::Legacy => [64.0 * (1.0 - u) + 255.0 * u, 255.0 * u, 64.0 * (1.0 - u) + 224.0 * u],
            Colormap::Gray => [u * 255.0; 3],
            Colormap::Viridis => c(colorous::VIRIDIS.eval_continuous(u)),
            Colormap::Plasma => c(colorous::PLASMA.eval_continuous(u)),
            Colormap::Inferno => c(colorous::INFERNO.eval_continuous(u)),
        }
    }
    let mut ts: Vec<f32> = vec![0.0, -0.0, 1.0, 0.25, 0.5, 0.75, 0.9, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), -1e-30, 1.0000001, 0.99999994, 2.0, -1.0];
    for b in [0.25f32, 0.5, 0.75, 0.9, 1.0] {
        ts.push(f32::from_bits(b.to_bits() - 1));
        ts.push(f32::from_bits(b.to_bits() + 1));
    }
    for i in 0..=4096 {
        ts.push(i as f32 / 4096.0);
    }
    let fd = cx.fdict.clone();
    for d in fd {
        for e in [d, -d, 1.0 - d, d / 2.0] {
            ts.push(e as f32);
            ts.push(f32::from_bits((e as f32).to_bits().wrapping_add(1)));
            ts.push(f32::from_bits((e as f32).to_bits().wrapping_sub(1)));
        }
    }
    for _ in 0..if cx.thorough { 400000 } else { 40000 } {
        ts.push(if cx.rng.bool() { (cx.rng.unit() * 0.5 + 0.5) as f32 } else { f32::from_bits(cx.rng.next() as u32) });
    }
    ts.retain(|t| !t.is_nan());
    for m in MAPS {
        for chunk in ts.chunks(512) {
            cx.check("colour", &format!("{m:?} for {} values from {:e}", chunk.len(), chunk[0]), |_| {
                for &t in chunk {
                    let c = map_color_u8(t, m);
                    let cl = if t < 0.0 { 0.0 } else if t > 1.0 { 1.0 } else { t };
                    if c != map_color_u8(cl, m) {
                        return Err(format!("t={t:e}: {c:?}, clamped value gives {:?}", map_color_u8(cl, m)));
                    }
                    let w = want(m, cl);
                    for k in 0..3 {
                        if !((c[k] as f64 - w[k]).abs() <= 1.001) {
                            return Err(format!("t={t:e}: {c:?}, contract {w:?}"));
                        }
                    }
                    let d = map_color_u16(t, m);
                    if d != [0, 1, 2].map(|k| c[k] as u16 * 257) {
                        return Err(format!("t={t:e}: 16-bit {d:?} for 8-bit {c:?}"));
                    }
                }
                Ok(())
            });
        }
    }
    cx.check("endpoints", "Fire, Rainbow and Gray at 0 and 1 and at their stops", |_| {
        for m in [Colormap::Fire, Colormap::Rainbow, Colormap::Gray] {
            for (t, w) in [(0.0f32, [0u8; 3]), (-5.0, [0; 3]), (1.0, [255; 3]), (7.0, [255; 3])] {
                if map_color_u8(t, m) != w {
                    return Err(format!("{m:?}({t}) = {:?}", map_color_u8(t, m)));
                }
            }
        }
        for (t, c) in FIRE {
            if map_color_u8(t as f32, Colormap::Fire) != c.map(|v| v as u8) {
                return Err(format!("Fire({t}) = {:?}", map_color_u8(t as f32, Colormap::Fire)));
            }
        }
        for (t, c) in RAIN {
            if map_color_u8(t as f32, Colormap::Rainbow) != c.map(|v| v as u8) {
                return Err(format!("Rainbow({t}) = {:?}", map_color_u8(t as f32, Colormap::Rainbow)));
            }
        }
        Ok(())
    });
    let mut sorted: Vec<f32> = ts.clone();
    sorted.sort_by(|a, b| a.total_cmp(b));
    cx.check("grey-monotone", &format!("{} values", sorted.len()), |_| {
        let mut last = 0;
        for &t in &sorted {
            let c = map_color_u8(t, Colormap::Gray);
            if c[0] != c[1] || c[1] != c[2] || c[0] < last {
                return Err(format!("t={t:e}: {c:?} after {last}"));
            }
            last = c[0];
        }
        Ok(())
    });
    for (s, w) in [
        ("legacy", Colormap::Legacy),
        ("GRAY", Colormap::Gray),
        ("Viridis", Colormap::Viridis),
        ("plasma", Colormap::Plasma),
        ("INFERNO", Colormap::Inferno),
        ("rainbow", Colormap::Rainbow),
        ("fire", Colormap::Fire),
        ("nonsense", Colormap::Fire),
        ("", Colormap::Fire),
    ] {
        cx.check("parse", s, |_| if Colormap::parse(s) == w { Ok(()) } else { Err(format!("{:?}", Colormap::parse(s))) });
    }
    for _ in 0..if cx.thorough { 20000 } else { 3000 } {
        let mag = cx.rng.unit().abs() as f32 * 2.0;
        let mx = cx.rng.unit().abs() as f32 + 0.1;
        let fl = -1.0 - 150.0 * cx.rng.unit().abs() as f32;
        let m = MAPS[cx.rng.below(7)];
        cx.check("from-magnitude", &format!("{m:?} mag={mag} max={mx} floor={fl}"), |_| {
            let c = color_from_magnitude_u8(mag, mx, fl, m);
            let db = if mag > 0.0 { (20.0 * (mag as f64 / mx as f64).log10()).max(fl as f64) } else { fl as f64 };
            let t = ((db - fl as f64) / -(fl as f64)).clamp(0.0, 1.0);
            let w = want(m, t as f32);
            for k in 0..3 {
                if !((c[k] as f64 - w[k]).abs() <= 1.6) {
                    return Err(format!("{c:?}, contract {w:?}"));
                }
            }
            let d = color_from_magnitude_u16(mag, mx, fl, m);
            if d != [0, 1, 2].map(|k| c[k] as u16 * 257) {
                return Err(format!("16-bit {d:?} for 8-bit {c:?}"));
            }
            Ok(())
        });
    }
}

#[cfg(not(feature = "cfg_nostd"))]
pub fn c26(cx: &mut Ctx) {
    use kofft::visual::spectrogram::*;
    for round in 0..if cx.thorough { 200000 } else { 30000 } {
        let ex = |cx: &mut Ctx| match cx.rng.below(8) {
            0 => 0.0,
            1 => f32::from_bits(cx.rng.next() as u32 & 0x7fff_ffff).min(f32::MAX),
            2 => -(cx.rng.unit().abs() as f32),
            3 => 1.0,
            _ => cx.rng.unit().abs() as f32 * [1.0, 1e-6, 1e4][cx.rng.below(3)],
        };
        let (mag, mx) = (ex(cx), ex(cx));
        let mag = if mag.is_nan() { 0.5 } else { mag };
        let mx = if mx.is_nan() { 0.5 } else { mx };
        let fl = -(1.0 + 200.0 * cx.rng.unit().abs() as f32);
        cx.check("db", &format!("mag={mag:e} max={mx:e} floor={fl} round={round}"), |_| {
            let d = magnitude_to_db(mag, mx, fl);
            if !(d >= fl) {
                return Err(format!("{d} is below the floor"));
            }
            if mag <= mx && !(d <= 0.0) {
                return Err(format!("{d} is above 0 dB"));
            }
            let ratio = mag as f64 / mx as f64;
            let w = if mx <= 0.0 || mag <= 0.0 { fl as f64 } else { (20.0 * ratio.log10()).max(fl as f64) };
            // quotients outside the normal range of f32 round to 0 or infinity
            if mx <= 0.0 || mag <= 0.0 || (ratio > 1e-37 && ratio < 1e38) {
                if !((d as f64 - w).abs() <= 1e-3 + 1e-6 * w.abs()) {
                    return Err(format!("got {d}, contract {w}"));
                }
            }
            Ok(())
        });
        let dr = 1.0 + 200.0 * cx.rng.unit().abs() as f32;
        if mx > 0.0 && mag >= 0.0 {
            cx.check("db-scale", &format!("mag={mag:e} max={mx:e} range={dr} round={round}"), |_| {
                let s = db_scale(mag, mx, dr);
                if !(0.0..=1.0).contains(&s) {
                    return Err(format!("{s} outside [0,1]"));
                }
                let ratio = (mag as f64 / mx as f64).max(1e-10);
                let w = ((20.0 * ratio.log10() + dr as f64) / dr as f64).clamp(0.0, 1.0);
                if ratio < 1e38 && !((s as f64 - w).abs() <= 1e-3) {
                    return Err(format!("got {s}, contract {w}"));
                }
                Ok(())
            });
        }
    }
    let mut maxes: Vec<usize> = (0..=if cx.thorough { 600 } else { 200 }).collect();
    maxes.extend([255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192]);
    for _ in 0..30 {
        maxes.push(cx.rng.range(1, 5000));
    }
    for mb in maxes {
        cx.check("bin-map", &format!("max_bin={mb}"), |_| {
            let mut last = 0;
            for b in 0..=mb {
                let p = map_bin_to_pixel(b, mb);
                if b == 0 && p != 0 {
                    return Err(format!("bin 0 maps to {p}"));
                }
                if p > mb || p < last {
                    return Err(format!("bin {b} maps to {p} (previous {last})"));
                }
                let exact = if mb == 0 { 0.0 } else { mb as f64 * (b as f64 + 1.0).ln() / (mb as f64 + 1.0).ln() };
                let sl = 1e-5 * (1.0 + exact);
                if (p as f64) < (exact - sl).floor() || p as f64 > (exact + sl).floor() {
                    return Err(format!("bin {b} maps to {p}, contract floor({exact})"));
                }
                last = p;
            }
            Ok(())
        });
        let n = match cx.rng.below(3) {
            0 => mb + 1,
            1 => cx.rng.range(0, mb + 1),
            _ => mb,
        };
        let v = v32(&rand_r(&mut cx.rng, n));
        cx.check("bin-mean", &format!("max_bin={mb} values={n} seed={}", cx.seed), |_| {
            let o = log_scale_bins(&v, mb);
            if o.len() != mb + 1 {
                return Err(format!("{} pixels, contract {}", o.len(), mb + 1));
            }
            let mut s = vec![(0.0f64, 0usize); mb + 1];
            for (b, &x) in v.iter().enumerate() {
                let p = map_bin_to_pixel(b, mb);
                s[p].0 += x as f64;
                s[p].1 += 1;
            }
            for p in 0..=mb {
                let w = if s[p].1 > 0 { s[p].0 / s[p].1 as f64 } else { 0.0 };
                if !((o[p] as f64 - w).abs() <= 1e-4) {
                    return Err(format!("pixel {p}: {}, contract {w}", o[p]));
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- build configuration

#[cfg(feature = "cfg_std")]
pub fn c27(cx: &mut Ctx) {
    use xtask::*;
    let archs = ["x86_64", "x86_64\n", "aarch64", "arm64", "i686", "armv7l", "riscv64", "", "wasm32", "powerpc64le"];
    let flagsets = [
        "",
        "sse2",
        "sse4_1",
        "sse4_2 sse4_1 ssse3",
        "avx sse4_1",
        "avx2 avx sse4_1",
        "avx2",
        "avx512f",
        "avx512f avx2 avx sse4_1",
        "Flags: fpu avx512f avx512dq avx2 fma sse4_1",
        "flags: neon asimd",
        "avx512bw",
        "fma f16c",
        "sse sse2 ssse3",
        "AVX2",
    ];
    let extras = ["", " ", "simd", "simd soa", "  simd\tsoa \n slow ", "parallel", "avx2", "sse avx2 avx512", "simd simd"];
    // random lists: known feature names, their prefixes, suffixes, extensions, other letter case, repetitions
    let known = ["x86_64", "avx512", "avx2", "sse", "aarch64", "parallel", "simd", "soa", "slow", "std", "wasm", "precomputed-twiddles"];
    let mut extras: Vec<String> = extras.iter().map(|s| s.to_string()).collect();
    for _ in 0..if cx.thorough { 60 } else { 12 } {
        let mut e = String::new();
        for _ in 0..cx.rng.range(1, 6) {
            let k = known[cx.rng.below(known.len())];
            let t = match cx.rng.below(7) {
                0 => k.to_string(),
                1 => format!("{k}-extra"),
                2 => format!("no-{k}"),
                3 => k[..k.len() - 1].to_string(),
                4 => k[1..].to_string(),
                5 => k.to_uppercase(),
                _ => format!("kofft/{k}"),
            };
            e.push_str(&t);
            e.push_str([" ", "  ", "\t", "\n"][cx.rng.below(4)]);
        }
        extras.push(e);
    }
    for a in archs {
        for f in flagsets {
            for n in [0usize, 1, 2, 3, 64, usize::MAX] {
                for e in &extras {
                    let e = e.as_str();
                    cx.check("config", &format!("arch={a:?} flags={f:?} cores={n} extra={e:?}"), |_| {
                        let c = compute_config(a, f, n, e);
                        let mut want: Vec<&str> = vec![];
                        let mut rf = None;
                        if a.contains("x86_64") {
                            want.push("x86_64");
                            if f.contains("avx512f") {
                                want.push("avx512");
                                rf = Some("avx512f");
                            } else if f.contains("avx2") {
                                want.push("avx2");
                                rf = Some("avx2");
                            } else if f.contains("sse4_1") {
                                want.push("sse");
                            }
                        } else if a.contains("aarch64") || a.contains("arm64") {
                            want.push("aarch64");
                        }
                        if n > 1 {
                            want.push("parallel");
                        }
                        want.extend(e.split_whitespace());
                        let (mut x, mut y): (Vec<&str>, Vec<&str>) = (c.features.iter().map(|s| s.as_str()).collect(), want.clone());
                        x.sort();
                        y.sort();
                        x.dedup();
                        y.dedup();
                        if x != y {
                            return Err(format!("features {:?}, contract {:?}", c.features, want));
                        }
                        match (rf, &c.rustflags) {
                            (None, None) => {}
                            (Some(r), Some(s)) if s.contains(&format!("+{r}")) && !(r == "avx2" && s.contains("avx512")) => {}
                            (r, s) => return Err(format!("rustflags {s:?}, contract {r:?}")),
                        }
                        let par = want.contains(&"parallel");
                        if c.example != if par { "parallel_benchmark" } else { "benchmark" } {
                            return Err(format!("example {} for {:?}", c.example, want));
                        }
                        let arg = c.features_arg();
                        if arg.is_none() != c.features.is_empty() || arg.as_ref().is_some_and(|s| s.split_whitespace().collect::<Vec<_>>() != c.features) {
                            return Err(format!("features_arg {arg:?} for {:?}", c.features));
                        }
                        for (name, cmd, env) in [
                            ("build", build_command(&c), false),
                            ("test", test_command(&c), false),
                            ("benchmark", benchmark_command(&c), true),
                            ("bench_libs", bench_libs_command(&c), true),
                            ("update_bench_readme", update_bench_readme_command(&c), true),
                        ] {
                            let args: Vec<String> = cmd.get_args().map(|s| s.to_string_lossy().into_owned()).collect();
                            let pos = args.iter().position(|s| s == "--features");
                            let got = pos.and_then(|p| args.get(p + 1)).cloned();
                            if got != arg {
                                return Err(format!("{name} passes --features {got:?}, contract {arg:?}"));
                            }
                            let rf = cmd.get_envs().find(|(k, _)| *k == "RUSTFLAGS").and_then(|(_, v)| v).map(|v| v.to_string_lossy().into_owned());
                            if env && rf != c.rustflags {
                                return Err(format!("{name} sets RUSTFLAGS {rf:?}, contract {:?}", c.rustflags));
                            }
                            let head = match name {
                                "build" => "build",
                                "test" => "test",
                                "bench_libs" => "bench",
                                _ => "run",
                            };
                            if args.first().map(|s| s.as_str()) != Some(head) || cmd.get_program() != "cargo" {
                                return Err(format!("{name} runs {:?} {args:?}", cmd.get_program()));
                            }
                            if name == "benchmark" && !args.windows(2).any(|w| w[0] == "--example" && w[1] == c.example) {
                                return Err(format!("benchmark runs {args:?}"));
                            }
                        }
                        let s = sanity_command("in file", "out file");
                        let sa: Vec<String> = s.get_args().map(|s| s.to_string_lossy().into_owned()).collect();
                        if sa.last().map(|s| s.as_str()) != Some("out file") || sa.get(sa.len().wrapping_sub(2)).map(|s| s.as_str()) != Some("in file") {
                            return Err(format!("sanity command {sa:?}"));
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
