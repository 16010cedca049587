//! C10: threads sharing a device.
use hcore::ensure;
use hcore::interp::{self, Hook};
use hcore::ops::{self, Dev};
use hcore::prog::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::work::{self, Digest, Work};
use prima_undine::device_impl::DeviceImpl;
use prima_undine::devices::Naive;
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::{Device, Shape, Tensor};
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

static PROGRESS: AtomicU64 = AtomicU64::new(0);
fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

thread_local! {
    static WHO: Cell<u8> = const { Cell::new(0) };
    static FAIL: Cell<u32> = const { Cell::new(0) };
    static DELAY: Cell<u64> = const { Cell::new(0) };
}
/// Delays, allocation failures and kernel panics of single threads; logs who did what when.
struct Chaos {
    log: Mutex<Vec<u8>>,
    calls: AtomicU64,
}
impl Chaos {
    fn pause(&self, what: u8) {
        tick();
        self.calls.fetch_add(1, Ordering::Relaxed);
        {
            let mut l = self.log.lock().unwrap_or_else(|e| e.into_inner());
            if l.len() < 4096 {
                l.push(WHO.with(|w| w.get()) * 8 + what);
            }
        }
        let d = DELAY.with(|d| {
            d.set(d.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
            d.get() >> 33
        });
        match d % 16 {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(Duration::from_micros(d % 60)),
            2..=4 => (0..d % 300).for_each(|_| std::hint::spin_loop()),
            _ => {}
        }
    }
    fn trip(&self) {
        let f = FAIL.with(|f| f.get());
        if f > 0 {
            FAIL.with(|c| c.set(f - 1));
            if f == 1 {
                panic!("injected");
            }
        }
    }
}
impl Hook for Chaos {
    fn fw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.pause(0);
        self.trip();
        d.call_fw_impl(name, xs, u, f, ys)
    }
    fn bw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.pause(1);
        self.trip();
        d.call_bw_impl(name, xs, ys, gys, u, f, gx)
    }
    fn alloc(&self, size: u32) -> AtomicPtr<c_void> {
        self.pause(2);
        self.trip();
        Naive {}.new_handle(size)
    }
}

#[derive(Clone, Copy, Debug)]
struct Job {
    w: Work,
    seed: u64,
    max: u64,
    /// the job is interrupted by a panic at this call
    fail: u32,
}
fn job(r: &mut Rng, small: bool) -> Job {
    Job { w: work::any(r), seed: r.next(), max: if small { 20 } else { *r.pick(&[20u64, 60, 200]) }, fail: 0 }
}
fn run_job(j: &Job, dev: Dev, other: Dev) -> Result<u64, String> {
    tick();
    let mut q = Rng::new(j.seed);
    let mut quiet = Rep::default();
    let r = catch(|| work::work(j.w, dev, other, &mut q, &mut quiet, j.max));
    tick();
    match r {
        Ok(x) => x,
        Err(m) => Err(format!("panic: {}", m)),
    }
}

struct St {
    alone: (Dev, Dev),
    shared: (Dev, Dev),
    chaos: (Dev, Dev),
    hook: Arc<Chaos>,
}
fn state() -> St {
    let hook = Arc::new(Chaos { log: Mutex::new(vec![]), calls: AtomicU64::new(0) });
    St {
        alone: (ops::naive(), ops::naive()),
        shared: (ops::naive(), ops::naive()),
        chaos: (interp::leak(interp::device(hook.clone())), interp::leak(interp::device(hook.clone()))),
        hook,
    }
}

/// The same jobs alone and by several threads at the same time.
fn jobs(st: &St, r: &mut Rng, rep: &mut Rep, chaos: bool, small: bool) -> Result<(), String> {
    let n = r.range(2, 4) as usize;
    let mut plan: Vec<Vec<Job>> = (0..n).map(|_| (0..r.range(1, 5)).map(|_| job(r, small)).collect()).collect();
    // sometimes all threads do the very same
    if r.chance(0.3) {
        let p = plan[0].clone();
        plan = vec![p; n];
    }
    let mut want = vec![];
    for p in &plan {
        let mut w = vec![];
        for j in p {
            w.push(run_job(j, st.alone.0, st.alone.1).map_err(|m| format!("alone {:?}: {}", j, m))?);
        }
        want.push(w);
    }
    // panics in some threads
    if chaos {
        for p in plan.iter_mut() {
            for j in p.iter_mut() {
                if r.chance(0.25) {
                    j.fail = r.range(1, 60) as u32;
                }
            }
        }
    }
    st.hook.log.lock().unwrap().clear();
    let fresh = !chaos && r.chance(0.3);
    let devs = if chaos {
        st.chaos
    } else if fresh {
        (ops::naive(), ops::naive())
    } else {
        st.shared
    };
    let bar = Barrier::new(n);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let hits = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for (k, p) in plan.iter().enumerate() {
            let (bar, err, want, seed, hits) = (&bar, &err, &want[k], seeds[k], &hits);
            sc.spawn(move || {
                WHO.with(|w| w.set(k as u8));
                DELAY.with(|d| d.set(seed));
                bar.wait();
                for (i, j) in p.iter().enumerate() {
                    FAIL.with(|f| f.set(j.fail));
                    let got = run_job(j, devs.0, devs.1);
                    let tripped = j.fail > 0 && FAIL.with(|f| f.replace(0)) == 0;
                    if tripped {
                        hits.fetch_add(1, Ordering::Relaxed);
                        // and the same again without the panic
                        let again = run_job(&Job { fail: 0, ..*j }, devs.0, devs.1);
                        if again.as_ref() != Ok(&want[i]) {
                            *err.lock().unwrap() = Some(format!("thread {} repeats {:?} after a panic: {:?}, alone: {:x}", k, j, again, want[i]));
                        }
                    } else if got.as_ref() != Ok(&want[i]) {
                        *err.lock().unwrap() = Some(format!("thread {} at {:?}: {:?}, alone: {:x}", k, j, got, want[i]));
                    }
                    tick();
                }
            });
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        return Err(format!("{}; threads ran {:?}", e, plan));
    }
    if fresh {
        unsafe {
            interp::unleak(devs.0);
            interp::unleak(devs.1);
        }
        rep.count("fresh_devices");
    }
    if chaos {
        let l = st.hook.log.lock().unwrap();
        rep.distinct(&*l);
        let switches = l.windows(2).filter(|w| w[0] / 8 != w[1] / 8).count();
        rep.max("switches_in_one_run", switches as u64);
        rep.add("thread_switches", switches as u64);
        rep.add("injected_panics", hits.load(Ordering::Relaxed));
        rep.add("delayed_calls", st.hook.calls.swap(0, Ordering::Relaxed));
    } else {
        rep.distinct(&plan.iter().flatten().map(|j| j.seed).collect::<Vec<_>>());
    }
    rep.add("jobs", plan.iter().map(|p| p.len() as u64).sum());
    rep.max("threads", n as u64);
    rep.sample(|| format!("{:?}", plan));
    Ok(())
}

/// Tensors read by several threads at the same time, views included, and tensors that are dropped
/// by another thread than the one that made them.
fn readers(st: &St, r: &mut Rng, rep: &mut Rep, small: bool) -> Result<(), String> {
    let n = r.range(2, 4) as usize;
    let dev = st.shared.0;
    let mut o = Opts::new(r.range(1, 8) as usize);
    o.params = 0.;
    o.max = if small { 20 } else { 90 };
    let class = if r.chance(0.5) { Class::Int } else { Class::Smooth };
    let p = Prog::generate(r, class, &o);
    let mut want = Digest::default();
    work::run_eager(st.alone.0, &p, &mut want);
    let leaves: Vec<Tensor<'static>> = (0..p.leaves.len()).map(|k| p.leaf_tensor(dev, k)).collect();
    let refs: &'static [Tensor<'static>] = unsafe { &*(leaves.as_slice() as *const _) };
    let err: Mutex<Option<String>> = Mutex::new(None);
    let bar = Barrier::new(n);
    let (tx, rx) = mpsc::channel::<Vec<Tensor<'static>>>();
    std::thread::scope(|sc| {
        for k in 0..n {
            let (bar, err, p, want, tx) = (&bar, &err, &p, want.0, tx.clone());
            sc.spawn(move || {
                bar.wait();
                for round in 0..3 {
                    let ts = p.tensors(|l| Tensor::from(&refs[l]));
                    let mut d = Digest::default();
                    for t in &ts {
                        d.add(&t.to_vec());
                    }
                    if d.0 != want {
                        *err.lock().unwrap() = Some(format!("thread {} in round {} computed other values from shared tensors", k, round));
                    }
                    tick();
                    if round == 1 {
                        let _ = tx.send(ts);
                    }
                }
            });
        }
        drop(tx);
        // results of the others die here while they go on
        for ts in rx {
            let mut d = Digest::default();
            for t in &ts {
                d.add(&t.to_vec());
            }
            if d.0 != want.0 {
                *err.lock().unwrap() = Some("a result changed on its way to another thread".to_string());
            }
            drop(ts);
            tick();
        }
    });
    for (k, l) in p.leaves.iter().enumerate() {
        ensure!(hcore::check::same_bits(&leaves[k].to_vec(), &l.data), "a shared tensor changed while several threads read it: {:?}", p);
    }
    if let Some(e) = err.into_inner().unwrap() {
        return Err(format!("{}; {:?}", e, p));
    }
    rep.distinct(&p.signature());
    rep.count("reader_runs");
    Ok(())
}

/// Random numbers drawn by several threads.
fn draws(st: &St, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = r.range(2, 5) as usize;
    let dev = st.shared.0;
    let bar = Barrier::new(n);
    let way = r.below(3);
    let rows: Vec<Vec<f32>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let bar = &bar;
                sc.spawn(move || {
                    let s = Shape::new(&[16, 4], 1);
                    bar.wait();
                    if k == 0 {
                        // refused while the others draw
                        let _ = catch(|| dev.random_normal(s, 0., -1.));
                        let _ = catch(|| dev.random_bernoulli(s, 7.));
                    }
                    let t = match way {
                        0 => dev.random_uniform(s, 2., 3.),
                        1 => dev.random_normal(s, 2., 0.1),
                        _ => dev.random_bernoulli(s, 0.5),
                    };
                    tick();
                    t.to_vec()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (k, v) in rows.iter().enumerate() {
        ensure!(v.len() == 64, "thread {} could not draw", k);
        let ok = v.iter().all(|x| match way {
            0 => *x >= 2. && *x <= 3.,
            1 => *x > 0. && *x < 4.,
            _ => *x == 0. || *x == 1.,
        });
        ensure!(ok, "thread {} drew {:?}", k, v);
        for (l, w) in rows.iter().enumerate().take(k) {
            ensure!(v != w, "threads {} and {} drew the same 64 numbers {:?}", l, k, v);
        }
    }
    rep.add("draws", rows.len() as u64);
    rep.distinct(&rows.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
    Ok(())
}

/// Bare shared allocation with many small requests: short critical sections collide most here.
fn churn(st: &St, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let dev = st.shared.0;
    let n = r.range(3, 6) as usize;
    let bar = Barrier::new(n);
    let sizes: Vec<u32> = (0..3).map(|_| r.range(1, 200) as u32).collect();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for k in 0..n {
            let (bar, bad, sizes) = (&bar, &bad, &sizes);
            let mut q = Rng::new(r.next());
            sc.spawn(move || {
                bar.wait();
                let mut mine: Vec<(Tensor<'static>, f32)> = vec![];
                for i in 0..120 {
                    if mine.len() < 6 && q.chance(0.6) {
                        let s = Sh::scalar().with(0, *q.pick(sizes));
                        let c = (k * 1000 + i) as f32;
                        mine.push((dev.new_tensor_by_constant(s.real(), c), c));
                    } else if !mine.is_empty() {
                        let at = q.us(mine.len());
                        let (t, c) = mine.swap_remove(at);
                        let v = t.to_vec();
                        if v.iter().any(|x| *x != c) {
                            *bad.lock().unwrap() = Some(format!("a tensor of thread {} holding {} shows {:?}", k, c, v));
                        }
                    }
                }
                tick();
            });
        }
    });
    rep.add("churned", 120 * n as u64);
    rep.distinct(&sizes);
    match bad.into_inner().unwrap() {
        Some(m) => Err(m),
        None => Ok(()),
    }
}

fn main() {
    let mut cfg = Cfg::from_args();
    let tsan = cfg.mode == "tsan";
    if cfg.replay.is_none() {
        cfg.threads = if tsan { 3 } else { 4 };
    }
    let cfg: &'static Cfg = Box::leak(Box::new(cfg));
    std::thread::spawn(move || {
        let mut last = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, std::time::Instant::now());
            }
            if last.1.elapsed() > Duration::from_secs(60) {
                let crumbs: Vec<String> = (0..8).filter_map(|i| std::fs::read_to_string(cfg.out.join(format!("crumb.{}", i))).ok()).collect();
                cfg.violation("deadlock", 0, format!("no thread made progress for 60 s; running cases {:?}", crumbs));
                cfg.finish("threads sharing a device", &[]);
            }
        }
    });
    let k = if tsan { 0.06 } else { 1. };
    let q = |a: u64, b: u64| ((cfg.q(a, b)) as f64 * k) as u64 + 1;
    cfg.stage("jobs", q(10_000, 300_000), 8., state, |st, r, rep| jobs(st, r, rep, false, tsan));
    cfg.stage("readers", q(10_000, 200_000), 5., state, |st, r, rep| readers(st, r, rep, tsan));
    cfg.stage("draws", q(10_000, 200_000), 4., state, |st, r, rep| draws(st, r, rep));
    cfg.stage("churn", q(6_000, 200_000), 5., state, |st, r, rep| churn(st, r, rep));
    cfg.stage("chaos", q(6_000, 200_000), 10., state, |st, r, rep| jobs(st, r, rep, true, true));
    cfg.finish(
        "two to six threads on one device: complete workloads compared with the same workloads alone, shared tensors and views read by all, tensors handed between threads, random draws, short allocation cycles, and runs with injected delays, allocation failures and kernel panics in single threads; a watchdog reports when nothing progresses; the same stages under the thread sanitizer, which watches every memory access",
        &["thread schedules are those that occurred; the counters show how often threads alternated"],
    )
}
