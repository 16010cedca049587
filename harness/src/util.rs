//! PRNG, reports, case runner.
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng { s: seed ^ 0x9e37_79b9_7f4a_7c15 };
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stage: String,
    pub case: u64,
    pub msg: String,
}

#[derive(Default, Debug)]
pub struct Rep {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub stage_samples: BTreeMap<String, u32>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub stage: String,
    pub verbose: bool,
}
impl Rep {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{}", k);
        let v = self.counters.entry(k).or_insert(0);
        if *v < n {
            *v = n;
        }
    }
    pub fn distinct<T: Hash>(&mut self, x: &T) {
        self.distinct.insert(hash_of(&(&self.stage, hash_of(x))));
    }
    /// Up to three written-out cases per stage.
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        let n = self.stage_samples.entry(self.stage.clone()).or_insert(0);
        if *n < 3 || self.verbose {
            *n += 1;
            let mut s = f();
            if s.len() > 600 && !self.verbose {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            if self.verbose {
                println!("[{}] {}", self.stage, s);
            }
            self.samples.push(format!("[{}] {}", self.stage, s));
        }
    }
    fn merge(&mut self, o: Rep) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            let stage = s.split(']').next().unwrap().trim_start_matches('[').to_string();
            let n = self.stage_samples.entry(stage).or_insert(0);
            if *n < 3 {
                *n += 1;
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.errors.extend(o.errors);
    }
}

pub struct Cfg {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: PathBuf,
    pub replay: Option<(String, u64)>,
    pub only: Option<String>,
    pub scale: f64,
    pub threads: usize,
    pub mode: String,
    pub t0: Instant,
    pub rep: Mutex<Rep>,
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, which may panic; Err holds the message. Panics of the harness itself go through.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = panic_msg(&*e);
            if m.starts_with("HARNESS") {
                std::panic::resume_unwind(e);
            }
            Err(m)
        }
    }
}

#[macro_export]
macro_rules! harness_error {
    ($($t:tt)*) => { panic!("HARNESS: {}", format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

impl Cfg {
    pub fn from_args() -> Cfg {
        // id out [--replay stage case] [--only stage] [--scale x] [--mode m]; VERIF_SEED, VERIF_TIER
        let args: Vec<String> = std::env::args().collect();
        if args.len() < 3 {
            eprintln!("usage: {} ID OUTDIR [--replay STAGE CASE] [--only STAGE] [--scale X] [--threads N]", args[0]);
            std::process::exit(2);
        }
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut cfg = Cfg {
            id: args[1].clone(),
            seed,
            thorough,
            out: PathBuf::from(&args[2]),
            replay: None,
            only: None,
            scale: 1.0,
            threads: 8,
            mode: String::new(),
            t0: Instant::now(),
            rep: Mutex::new(Rep::default()),
        };
        let mut i = 3;
        while i < args.len() {
            match args[i].as_str() {
                "--replay" => {
                    cfg.replay = Some((args[i + 1].clone(), args[i + 2].parse().unwrap()));
                    cfg.threads = 1;
                    i += 3;
                }
                "--only" => {
                    cfg.only = Some(args[i + 1].clone());
                    i += 2;
                }
                "--scale" => {
                    cfg.scale = args[i + 1].parse().unwrap();
                    i += 2;
                }
                "--threads" => {
                    cfg.threads = args[i + 1].parse().unwrap();
                    i += 2;
                }
                "--mode" => {
                    cfg.mode = args[i + 1].clone();
                    i += 2;
                }
                x => {
                    eprintln!("unknown argument {}", x);
                    std::process::exit(2);
                }
            }
        }
        std::fs::create_dir_all(&cfg.out).ok();
        if std::env::var("HARNESS_LOUD").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        cfg
    }

    pub fn q(&self, quick: u64, thorough: u64) -> u64 {
        ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64
    }

    /// Runs up to `n` cases named by their seed, on all threads, at most `secs` seconds (quick tier;
    /// the thorough tier gets 15 times as much). `init` makes the per-thread state.
    pub fn stage<S, I, F>(&self, stage: &str, n: u64, secs: f64, init: I, f: F)
    where
        I: Fn() -> S + Sync,
        F: Fn(&mut S, &mut Rng, &mut Rep) -> Result<(), String> + Sync,
    {
        if let Some(o) = &self.only {
            if o != stage {
                return;
            }
        }
        if let Some((s, _)) = &self.replay {
            if s != stage {
                return;
            }
        }
        let secs = if self.thorough { secs * 15. } else { secs };
        let limit = Duration::from_secs_f64(secs * self.scale.max(0.2));
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let merged = Mutex::new(Rep::default());
        let base = Rng::new(self.seed ^ hash_of(&stage.to_string())).next();
        std::thread::scope(|sc| {
            for shard in 0..self.threads {
                let (next, stop, merged, init, f) = (&next, &stop, &merged, &init, &f);
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(sc, move || {
                    let mut rep = Rep::default();
                    rep.stage = stage.to_string();
                    rep.verbose = self.replay.is_some();
                    let crumb = File::options()
                        .create(true)
                        .write(true)
                        .open(self.out.join(format!("crumb.{}", shard)))
                        .unwrap();
                    let mut state = init();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if stop.load(Ordering::SeqCst) || i >= n || t0.elapsed() > limit {
                            break;
                        }
                        let case = match &self.replay {
                            Some((_, c)) => {
                                if i > 0 {
                                    break;
                                }
                                *c
                            }
                            None => base.wrapping_add(i.wrapping_mul(0x2545_f491_4f6c_dd1d)),
                        };
                        let s = format!("{:<24} {:>20}\n", stage, case);
                        let _ = crumb.write_at(s.as_bytes(), 0);
                        let mut rng = Rng::new(case);
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut state, &mut rng, &mut rep)));
                        rep.evals += 1;
                        let bad = match r {
                            Ok(Ok(())) => None,
                            Ok(Err(m)) => Some(m),
                            Err(e) => {
                                let m = panic_msg(&*e);
                                if m.starts_with("HARNESS") {
                                    rep.errors.push(format!("{} case {}: {}", stage, case, m));
                                    stop.store(true, Ordering::SeqCst);
                                    None
                                } else {
                                    Some(format!("unexpected panic: {}", m))
                                }
                            }
                        };
                        if let Some(msg) = bad {
                            rep.violations.push(Violation { stage: stage.to_string(), case, msg });
                            if rep.violations.len() >= 3 {
                                stop.store(true, Ordering::SeqCst);
                            }
                            state = init();
                        }
                    }
                    let _ = crumb.write_at(format!("{:<24} {:>20}\n", "-", 0).as_bytes(), 0);
                    merged.lock().unwrap().merge(rep);
                })
                .unwrap();
            }
        });
        let mut m = merged.into_inner().unwrap();
        let k = format!("cases_{}", stage);
        let e = m.evals;
        m.add(&k, e);
        self.rep.lock().unwrap().merge(m);
    }

    /// Records a violation outside of a stage.
    pub fn violation(&self, stage: &str, case: u64, msg: String) {
        self.rep.lock().unwrap().violations.push(Violation { stage: stage.to_string(), case, msg });
    }
    pub fn error(&self, msg: String) {
        self.rep.lock().unwrap().errors.push(msg);
    }

    /// Writes result.json and exits: 0 held, 1 violated, 2 internal error.
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> ! {
        let mut rep = self.rep.lock().unwrap();
        if self.replay.is_none() && rep.violations.is_empty() && rep.errors.is_empty() {
            if rep.evals == 0 || rep.distinct.is_empty() {
                rep.errors.push("nothing was observed".to_string());
            }
        }
        let v: Vec<serde_json::Value> = rep
            .violations
            .iter()
            .map(|v| serde_json::json!({"stage": v.stage, "case": v.case, "msg": v.msg}))
            .collect();
        let j = serde_json::json!({
            "property": self.id,
            "seed": self.seed,
            "evaluations": rep.evals,
            "distinct_nontrivial": rep.distinct.len(),
            "rule": rule,
            "samples": rep.samples.iter().take(12).collect::<Vec<_>>(),
            "counters": rep.counters,
            "assumptions": assumptions,
            "violations": v,
            "errors": rep.errors,
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        let tmp = self.out.join("result.json.tmp");
        std::fs::write(&tmp, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        std::fs::rename(&tmp, self.out.join("result.json")).unwrap();
        for e in &rep.errors {
            eprintln!("error: {}", e);
        }
        for x in rep.violations.iter().take(5) {
            eprintln!("violation: stage {} case {}: {}", x.stage, x.case, x.msg);
        }
        let code = if !rep.violations.is_empty() {
            1
        } else if !rep.errors.is_empty() {
            2
        } else {
            0
        };
        use std::io::Write;
        std::io::stdout().flush().ok();
        // Skip destructors of leaked devices etc.
        unsafe { libc::_exit(code) }
    }
}

thread_local! {
    /// Dummy to keep file::write_at used.
    static _T: u8 = 0;
}
