//! Contract replay: runs the property's contract clauses against the real crate.
mod ctx;
mod fft;
mod misc;
mod num;
mod real;

use ctx::Ctx;
use std::sync::Mutex;
use std::time::Duration;

static DEV: Mutex<(f64, u64)> = Mutex::new((0.0, 0));
/// Calibration aid (REPLAY_DEV=1): the largest deviation seen, as a fraction of the allowance.
pub fn note_dev(r: f64) {
    let mut g = DEV.lock().unwrap();
    g.1 += 1;
    if r > g.0 {
        g.0 = r;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut prop = String::new();
    let (mut thorough, mut seed, mut only, mut budget) = (false, 1u64, None, 120u64);
    let (mut dict, mut fdict) = (vec![], vec![]);
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--tier" => thorough = v == "thorough",
            "--seed" => seed = v.parse().unwrap_or(1),
            "--only" => only = Some(v),
            "--budget" => budget = v.parse().unwrap_or(120),
            "--dict" => {
                for t in std::fs::read_to_string(&v).unwrap_or_default().split_whitespace() {
                    if let Ok(x) = t.parse::<usize>() {
                        if x <= 1 << 20 {
                            dict.push(x);
                        }
                    } else if let Ok(x) = t.parse::<f64>() {
                        fdict.push(x);
                    }
                }
            }
            p => {
                prop = p.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = Ctx::new(&prop, thorough, seed, only, dict, fdict, Duration::from_secs(budget));
    match prop.as_str() {
        "C01" => fft::c01(&mut cx),
        "C02" => fft::c02(&mut cx),
        "C03" => {
            fft::c03_fft(&mut cx);
            real::c03_rest(&mut cx);
        }
        "C04" => fft::c04(&mut cx),
        "C05" => fft::c05(&mut cx),
        "C06" => fft::c06(&mut cx),
        "C07" => fft::c07(&mut cx),
        "C08" => real::c08(&mut cx),
        "C09" => fft::c09(&mut cx),
        "C10" => real::c10(&mut cx),
        "C11" => real::c11(&mut cx),
        "C12" => real::c12(&mut cx),
        "C13" => real::c13(&mut cx),
        "C14" => real::c14(&mut cx),
        "C15" => real::c15(&mut cx),
        "C16" => real::c16(&mut cx),
        "C17" => real::c17(&mut cx),
        "C18" => real::c18(&mut cx),
        "C19" => misc::c19(&mut cx),
        "C20" => misc::c20(&mut cx),
        "C21" => misc::c21(&mut cx),
        "C22" => misc::c22(&mut cx),
        "C23" => misc::c23(&mut cx),
        #[cfg(not(feature = "cfg_nostd"))]
        "C24" => misc::c24(&mut cx),
        #[cfg(not(feature = "cfg_nostd"))]
        "C25" => misc::c25(&mut cx),
        #[cfg(not(feature = "cfg_nostd"))]
        "C26" => misc::c26(&mut cx),
        #[cfg(feature = "cfg_std")]
        "C27" => misc::c27(&mut cx),
        "C28" => fft::c28(&mut cx),
        _ => {
            println!("NONE\t{prop}");
            println!("DONE\t0");
            return;
        }
    }
    for (c, n) in &cx.clauses {
        println!("CLAUSE\t{c}\t{n}");
    }
    for s in &cx.samples {
        println!("SAMPLE\t{s}");
    }
    if std::env::var("REPLAY_DEV").is_ok() {
        println!("DEV\t{:?}", DEV.lock().unwrap());
    }
    println!("CASES\t{}\t{}", cx.cases, cx.out_of_time());
    println!("DONE\t{}", if cx.viols.is_empty() { 0 } else { 1 });
    std::process::exit(if cx.viols.is_empty() { 0 } else { 1 });
}
