//! C09: repeated work does not grow memory.
use hcore::ensure;
use hcore::interp::{device, leak, unleak};
use hcore::ledger::*;
use hcore::ops::Dev;
use hcore::refm::Sh;
use hcore::util::*;
use hcore::work::{self, Work};
use prima_undine::{Device, Tensor};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::Arc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// log2 of the smallest power of two not below the size, at least 64: the pool's granularity may be
/// coarser for tiny buffers.
fn range(s: u32) -> u32 {
    let s = s.max(64) as u64;
    64 - (s - 1).leading_zeros()
}

/// The memory held against the demand.
struct Demand {
    now: HashMap<u32, u64>,
    peak: HashMap<u32, u64>,
}
impl Demand {
    fn new() -> Demand {
        Demand { now: HashMap::new(), peak: HashMap::new() }
    }
    fn take(&mut self, s: u32) {
        let n = self.now.entry(range(s)).or_insert(0);
        *n += s.max(64) as u64;
        let p = self.peak.entry(range(s)).or_insert(0);
        *p = (*p).max(*n);
    }
    fn give(&mut self, s: u32) {
        *self.now.get_mut(&range(s)).unwrap() -= s.max(64) as u64;
    }
    fn bound(&self) -> u64 {
        self.peak.values().sum::<u64>() * 3
    }
}

fn size(r: &mut Rng, class: u64) -> u32 {
    match r.below(8) {
        0 => r.range(1, 64) as u32,
        1..=3 => {
            let k = r.below(class + 1) as u32;
            ((1u64 << k) as i64 + r.range(-2, 2)).clamp(1, 1 << 31) as u32
        }
        4 => ((r.next() as u32) >> (32 - class.max(1))).max(1),
        _ => r.range(1, 3000) as u32,
    }
}

/// Requests and releases of any size: the bound, and reuse.
fn direct(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led = Arc::new(Ledger::new(true));
    let dev: Device<'static> = Device::new(Bare(led.clone()));
    let mut owned: Vec<(u32, AtomicPtr<c_void>)> = vec![];
    let mut dem = Demand::new();
    let mut log = vec![];
    let class = *r.pick(&[10u64, 20, 31]);
    let few: Vec<u32> = (0..r.range(1, 6)).map(|_| size(r, class)).collect();
    let mixed = r.chance(0.5);
    let limit = r.range(1, 40) as usize;
    for _ in 0..r.range(10, 300) {
        if owned.len() < limit && r.chance(0.6) || owned.is_empty() {
            let s = if mixed { size(r, class) } else { *r.pick(&few) };
            log.push(s as i64);
            let h = dev.new_handle(s);
            dem.take(s);
            owned.push((s, h));
        } else {
            let k = r.us(owned.len());
            let (s, h) = owned.swap_remove(k);
            log.push(-(s as i64));
            dev.drop_handle(&h);
            dem.give(s);
            if r.chance(0.3) {
                // the very next request of this size
                let before = led.book().allocs;
                let h = dev.new_handle(s);
                dem.take(s);
                log.push(s as i64);
                ensure!(led.book().allocs == before, "a request of {} elements obtained new memory although a buffer of that size was just released; requests and releases {:?}", s, log);
                owned.push((s, h));
                rep.count("reuse_checked");
            }
        }
        let held = led.book().held;
        ensure!(held <= dem.bound(), "the device holds {} elements, three times the peak demand is {}; requests and releases {:?}", held, dem.bound(), log);
        rep.count("steps");
    }
    // the same requests again need nothing new
    let sizes: Vec<u32> = owned.iter().map(|x| x.0).collect();
    for (_, h) in owned.drain(..) {
        dev.drop_handle(&h);
    }
    let before = led.book().allocs;
    for round in 0..3 {
        let mut order: Vec<u32> = sizes.clone();
        r.shuffle(&mut order);
        let hs: Vec<_> = order.iter().map(|s| dev.new_handle(*s)).collect();
        let got = led.book().allocs;
        ensure!(got == before, "the same {} requests {:?} obtained new memory in round {}; {:?}", order.len(), order, round, log);
        for h in &hs {
            dev.drop_handle(h);
        }
    }
    rep.distinct(&log);
    rep.sample(|| format!("{:?}", log));
    Ok(())
}

/// Very many buffers at the same time.
fn many(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led = Arc::new(Ledger::new(true));
    let dev: Device<'static> = Device::new(Bare(led.clone()));
    let n = hcore::gen::tail(r, 300, 40_000) as usize;
    let class = *r.pick(&[6u64, 12, 31]);
    let few: Vec<u32> = (0..r.range(1, 4)).map(|_| size(r, class)).collect();
    let mut sizes: Vec<u32> = (0..n).map(|_| *r.pick(&few)).collect();
    let mut base = 0;
    for round in 0..4 {
        let mut hs: Vec<AtomicPtr<c_void>> = sizes.iter().map(|s| dev.new_handle(*s)).collect();
        let got = led.book().allocs;
        if round == 0 {
            base = got;
        }
        ensure!(got == base, "{} requests of sizes {:?} obtained {} buffers at first and {} after round {}", n, few, base, got, round);
        if r.chance(0.5) {
            r.shuffle(&mut hs);
        }
        if r.chance(0.5) {
            r.shuffle(&mut sizes);
        }
        // most of them are given back before the others are asked for again
        for h in &hs {
            dev.drop_handle(h);
        }
        rep.count("rounds_of_many");
    }
    rep.max("buffers_at_once", n as u64);
    rep.distinct(&(n, few));
    Ok(())
}

/// Tensors instead of bare handles.
fn tensors(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led = Arc::new(Ledger::new(false));
    let dev: Dev = leak(device(led.clone()));
    let mut dem = Demand::new();
    let mut ts: Vec<Tensor<'static>> = vec![];
    let mut log = vec![];
    for _ in 0..r.range(5, 80) {
        if r.chance(0.6) || ts.is_empty() {
            let s = hcore::gen::shape(r, 500);
            let t = dev.new_tensor_by_constant(s.real(), 1.);
            dem.take(s.size() as u32);
            log.push(s.size() as i64);
            ts.push(t);
        } else {
            let k = r.us(ts.len());
            let t = ts.swap_remove(k);
            use prima_undine::functions::BasicFunctions;
            let n = t.shape().size();
            drop(t);
            dem.give(n);
            log.push(-(n as i64));
        }
        let held = led.book().held;
        ensure!(held <= dem.bound(), "the device holds {} elements, three times the peak demand is {}; tensors created and dropped {:?}", held, dem.bound(), log);
    }
    drop(ts);
    unsafe { unleak(dev) };
    rep.distinct(&log);
    rep.count("tensor_histories");
    Ok(())
}

/// A mixture of workloads, repeated.
fn repeat(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led: Vec<Arc<Ledger>> = (0..2).map(|_| Arc::new(Ledger::new(false))).collect();
    let devs: Vec<Dev> = led.iter().map(|l| leak(device(l.clone()))).collect();
    let jobs: Vec<(Work, u64, u64)> = (0..r.range(1, 5))
        .map(|_| {
            // random numbers do not change the sizes
            (work::any(r), r.next(), *r.pick(&[20u64, 90, 300]))
        })
        .collect();
    let mut base = [0u64; 2];
    for round in 0..6 {
        for (w, seed, max) in &jobs {
            let mut q = Rng::new(*seed);
            catch(|| work::work(*w, devs[0], devs[1], &mut q, rep, *max)).map_err(|m| format!("{:?} panicked: {}", jobs, m))??;
        }
        let now = [led[0].book().allocs, led[1].book().allocs];
        if round < 2 {
            base = now;
        } else {
            ensure!(now == base, "round {} of {:?} obtained new device memory: {:?} buffers after two rounds, now {:?}", round, jobs, base, now);
            rep.count("rounds_checked");
        }
    }
    for l in &led {
        rep.max("buffers", l.book().allocs);
        rep.distinct(&l.book().sizes.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>());
    }
    rep.sample(|| format!("{:?}: {:?} buffers", jobs, base));
    for d in devs {
        unsafe { unleak(d) };
    }
    Ok(())
}

/// Something that stays between the rounds: training with persistent parameters and optimizer.
fn training(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    use hcore::prog::*;
    use prima_undine::functions::BasicFunctions;
    use prima_undine::{Node, Parameter};
    let led = Arc::new(Ledger::new(false));
    let dev: Dev = leak(device(led.clone()));
    let heap0 = live();
    {
        let mut o = Opts::new(r.range(1, 12) as usize);
        o.params = 0.8;
        let p = Prog::generate(r, Class::Smooth, &o);
        let mut ps: Vec<Option<Box<Parameter<'static>>>> = p
            .leaves
            .iter()
            .map(|l| match l.kind {
                LeafKind::Param => Some(Box::new(Parameter::new(hcore::ops::tensor(dev, l.s, &l.data), hcore::ops::tensor(dev, l.s, &vec![0.; l.s.n()])))),
                _ => None,
            })
            .collect();
        let inputs: Vec<Tensor<'static>> = (0..p.leaves.len()).map(|k| p.leaf_tensor(dev, k)).collect();
        let mut opt = hcore::optm::make(r);
        {
            let mut refs: Vec<&mut Parameter> = ps.iter_mut().flatten().map(|p| &mut **p).collect();
            opt.o.configure(&mut refs);
        }
        let mut base = 0;
        let mut heap = 0;
        let rounds = 25;
        for round in 0..rounds {
            {
                let mut ptr: Vec<*mut Parameter<'static>> = ps.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| &mut **p as *mut _)).collect();
                let nodes = p.nodes(|k| match p.leaves[k].kind {
                    LeafKind::Param => Node::from(unsafe { &mut *ptr[k] }),
                    LeafKind::Input => Node::from(&inputs[k]),
                    LeafKind::Owned => Node::from(p.leaf_tensor(dev, k)),
                });
                ptr.clear();
                let root = nodes.len() - 1;
                nodes[root].backward();
                let _ = nodes[root].to_vec();
            }
            let mut refs: Vec<&mut Parameter> = ps.iter_mut().flatten().map(|p| &mut **p).collect();
            opt.o.update(&mut refs);
            let now = led.book().allocs;
            if round < 2 {
                base = now;
            } else {
                ensure!(now == base, "training step {} obtained new device memory ({} buffers, {} after two steps) with {:?} for {:?}", round, now, base, opt, p);
            }
            if round == 12 {
                heap = live();
            }
            rep.count("training_steps");
        }
        let grown = live() - heap;
        ensure!(grown < 6000, "{} bytes of host memory were lost in {} training steps with {:?} for {:?}", grown, rounds - 13, opt, p);
        rep.distinct(&p.signature());
    }
    unsafe { unleak(dev) };
    let lost = live() - heap0;
    let _ = lost;
    Ok(())
}

/// Host memory: a small workload many times.
fn heap(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let devs: Vec<Dev> = (0..2).map(|_| hcore::ops::naive()).collect();
    let w = *r.pick(work::WORKS);
    let seed = r.next();
    let mut quiet = Rep::default();
    let mut marks = vec![];
    let n = 300;
    for i in 0..4 * n {
        let mut q = Rng::new(seed);
        catch(|| work::work(w, devs[0], devs[1], &mut q, &mut quiet, 20)).map_err(|m| format!("{:?} panicked: {}", w, m))??;
        if i % n == n - 1 {
            marks.push(live());
        }
    }
    // tables may still double once; what is lost in each round adds up
    let grown = marks[3] - marks[0];
    ensure!(grown < 4096, "{} repetitions of {:?} (seed {}) lost {} bytes of host memory; live bytes {:?}", 3 * n, w, seed, grown, marks);
    rep.max("heap_growth_bytes", grown.max(0) as u64);
    rep.add("heap_rounds", 4 * n);
    rep.distinct(&(w as u8, seed));
    for d in devs {
        unsafe { unleak(d) };
    }
    Ok(())
}

/// Sizes of the tensors of a workload in random order, with everything dropped at the end: what is
/// held must not depend on how often it ran.
fn shuffled(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led = Arc::new(Ledger::new(false));
    let dev: Dev = leak(device(led.clone()));
    let shapes: Vec<Sh> = (0..r.range(1, 12)).map(|_| hcore::gen::shape(r, 900)).collect();
    let mut base = 0;
    for round in 0..5 {
        let mut order: Vec<usize> = (0..shapes.len()).collect();
        r.shuffle(&mut order);
        // all live at the same time: the peak is the same in each round
        let ts: Vec<Tensor> = order.iter().map(|&i| dev.new_tensor_by_constant(shapes[i].real(), 0.)).collect();
        let copies: Vec<Tensor> = ts.iter().map(|t| t * 2.).collect();
        let mut all: Vec<Tensor> = ts.into_iter().chain(copies).collect();
        while !all.is_empty() {
            let k = r.us(all.len());
            all.swap_remove(k);
        }
        let now = led.book().allocs;
        if round == 0 {
            base = now;
        }
        ensure!(now == base, "tensors of shapes {:?}, created in another order, needed new memory in round {}: {} buffers, {} in the first", shapes, round, now, base);
        rep.count("shuffled_rounds");
    }
    rep.distinct(&shapes);
    unsafe { unleak(dev) };
    let _ = led.calls.load(Ordering::SeqCst);
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("direct", cfg.q(60_000, 1_000_000), 5., || (), |_, r, rep| direct(r, rep));
    cfg.stage("many", cfg.q(600, 15_000), 4., || (), |_, r, rep| many(r, rep));
    cfg.stage("tensors", cfg.q(10_000, 200_000), 3., || (), |_, r, rep| tensors(r, rep));
    cfg.stage("shuffled", cfg.q(10_000, 200_000), 3., || (), |_, r, rep| shuffled(r, rep));
    cfg.stage("repeat", cfg.q(25_000, 300_000), 8., || (), |_, r, rep| repeat(r, rep));
    cfg.stage("training", cfg.q(6_000, 100_000), 6., || (), |_, r, rep| training(r, rep));
    cfg.stage("heap", cfg.q(600, 10_000), 10., || (), |_, r, rep| heap(r, rep));
    cfg.finish(
        "mixtures of complete workloads repeated six times on two devices, training steps repeated 25 times, small workloads repeated 1200 times, tensors in changing orders, and direct requests and releases of sizes up to 2^31: after the warm-up the backend is asked for nothing new, at every moment the elements held are at most three times the sum of peak demands per power-of-two range (requests counted as at least 64 elements), a released buffer serves the next request of its size, and the live host memory counted by the allocator does not grow",
        &["requests below 64 elements may take up to 64"],
    )
}
