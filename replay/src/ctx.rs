//! Runtime contract monitor: evaluates the contract clauses of each property on
//! the real crate, records what was evaluated and any violated clause.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub clause: String,
    pub case: String,
    pub detail: String,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// Uniform in [-1, 1).
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
    pub fn f32(&mut self) -> f32 {
        self.unit() as f32
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub rng: Rng,
    pub viols: Vec<Viol>,
    pub clauses: BTreeMap<String, u64>,
    pub cases: u64,
    pub samples: Vec<String>,
    /// Integer literals of the current sources (interesting lengths).
    pub dict: Vec<usize>,
    /// Float literals of the current sources.
    pub fdict: Vec<f64>,
    pub start: Instant,
    pub budget: Duration,
    cur: Arc<Mutex<(String, String, Instant)>>,
    case: String,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, only: Option<String>, dict: Vec<usize>, fdict: Vec<f64>, budget: Duration) -> Self {
        let cur = Arc::new(Mutex::new((String::new(), String::new(), Instant::now())));
        let c2 = cur.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = c2.lock().unwrap();
            if !g.0.is_empty() && g.2.elapsed() > Duration::from_secs(60) {
                println!("VIOL\t{}\t{}\tdid not finish within 60 s", g.0, g.1);
                println!("DONE\t1");
                std::process::exit(1);
            }
        });
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            only,
            rng: Rng::new(seed),
            viols: vec![],
            clauses: BTreeMap::new(),
            cases: 0,
            samples: vec![],
            dict,
            fdict,
            start: Instant::now(),
            budget,
            cur,
            case: String::new(),
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn fail(&mut self, clause: &str, case: &str, detail: String) {
        if self.viols.iter().filter(|v| v.clause == clause).count() < 3 {
            println!("VIOL\t{}\t{}\t{}", clause, case, detail.replace(['\n', '\t'], " "));
            self.viols.push(Viol { clause: clause.into(), case: case.into(), detail });
        }
    }
    /// Evaluate one contract clause on one case. `f` returns Err(detail) when the clause is broken.
    /// A panic inside `f` is a violation as well.
    pub fn check<F: FnOnce(&mut u64) -> Result<(), String>>(&mut self, clause: &str, case: &str, f: F) -> bool {
        if let Some(o) = &self.only {
            if !clause.contains(o.as_str()) {
                return true;
            }
        }
        // give up on a clause that has already failed three times
        if self.viols.iter().filter(|v| v.clause == clause).count() >= 3 {
            return false;
        }
        {
            let mut g = self.cur.lock().unwrap();
            g.0 = clause.into();
            g.1 = case.into();
            g.2 = Instant::now();
        }
        let mut n = 0u64;
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut n)));
        {
            let mut g = self.cur.lock().unwrap();
            g.0.clear();
        }
        *self.clauses.entry(clause.into()).or_insert(0) += 1;
        self.cases += 1;
        if self.samples.len() < 12 && self.cases % 37 == 1 {
            self.samples.push(format!("{clause}: {case}"));
        }
        match r {
            Ok(Ok(())) => true,
            Ok(Err(d)) => {
                self.fail(clause, case, d);
                false
            }
            Err(e) => {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic".into());
                self.fail(clause, case, format!("panicked: {m}"));
                false
            }
        }
    }
    pub fn set_case(&mut self, s: String) {
        self.case = s;
    }
    /// Lengths worth trying: everything up to `all`, then powers of two and
    /// neighbours up to `max`, source literals and a few random ones.
    pub fn lengths(&mut self, all: usize, max: usize, extra: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (1..=all.min(max)).collect();
        let mut p = 1usize;
        while p <= max {
            for q in [p.wrapping_sub(1), p, p + 1, p + p / 2] {
                v.push(q);
            }
            p *= 2;
        }
        for &d in &self.dict.clone() {
            for q in [d.wrapping_sub(1), d, d + 1, 2 * d, 2 * d + 1, d / 2] {
                v.push(q);
            }
        }
        for _ in 0..extra {
            v.push(self.rng.range(1, max));
        }
        v.retain(|&x| x >= 1 && x <= max);
        v.sort();
        v.dedup();
        v
    }
}
