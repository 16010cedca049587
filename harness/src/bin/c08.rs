//! C08: ownership of device memory.
use hcore::interp::{device, leak, unleak};
use hcore::ledger::*;
use hcore::ops::{eager, lazy, Dev, KINDS};
use hcore::refm::Sh;
use prima_undine::functions::BasicFunctions;
use hcore::util::*;
use hcore::work;
use hcore::ensure;
use prima_undine::Device;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

pub fn size(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => r.range(1, 64) as u32,
        1..=4 => {
            let k = r.range(0, 31) as u32;
            ((1u64 << k) as i64 + r.range(-2, 2)).clamp(1, u32::MAX as i64) as u32
        }
        5 => r.next() as u32 | 1,
        _ => r.range(1, 3000) as u32,
    }
}
fn a(h: &AtomicPtr<c_void>) -> usize {
    h.load(Ordering::SeqCst) as usize
}

/// Requests and releases on several devices.
fn direct(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = r.range(1, 3) as usize;
    let led: Vec<Arc<Ledger>> = (0..n).map(|_| Arc::new(Ledger::new(true))).collect();
    let mut devs: Vec<Option<Device<'static>>> = led.iter().map(|l| Some(Device::new(Bare(l.clone())))).collect();
    let mut owned: Vec<HashMap<usize, (u32, AtomicPtr<c_void>)>> = (0..n).map(|_| HashMap::new()).collect();
    let few: Vec<u32> = (0..3).map(|_| size(r)).collect();
    let mixed = r.chance(0.6);
    let mut log = vec![];
    for _ in 0..r.range(5, 200) {
        let d = r.us(n);
        let dev = match &devs[d] {
            Some(x) => x,
            None => continue,
        };
        let grow = if owned[d].len() > 30 { 0.2 } else { 0.55 };
        match r.below(20) {
            0 if !owned[d].is_empty() => {
                // a device never takes what it did not give
                let o = r.us(n);
                let k = *owned[d].keys().min().unwrap();
                let (alien, what) = if o != d {
                    (k, "another device's")
                } else {
                    (r.next() as usize | 1 << 63, "an unknown")
                };
                if let Some(od) = &devs[o] {
                    let h = AtomicPtr::new(alien as *mut c_void);
                    let e = catch(|| od.drop_handle(&h));
                    ensure!(e.is_err(), "device {} accepted the release of {} buffer; {:?}", o, what, log);
                    log.push(format!("{}: release of {} buffer refused", o, what));
                    rep.count("alien_refused");
                }
            }
            1 => {
                // the backend has no memory
                led[d].fail.store(1, Ordering::SeqCst);
                let s = if mixed { size(r) } else { *r.pick(&few) };
                match catch(|| dev.new_handle(s)) {
                    Ok(h) => {
                        // recycled
                        check_new(&led[d], &mut owned[d], s, h, &log)?;
                    }
                    Err(_) => rep.count("allocation_failed"),
                }
                led[d].fail.store(0, Ordering::SeqCst);
                log.push(format!("{}: request of {} with a failing backend", d, s));
            }
            2 if !owned[d].is_empty() => {
                // released twice
                let k = *owned[d].keys().max().unwrap();
                let (_, h) = owned[d].remove(&k).unwrap();
                dev.drop_handle(&h);
                let e = catch(|| dev.drop_handle(&h));
                ensure!(e.is_err(), "device {} accepted a second release; {:?}", d, log);
                log.push(format!("{}: double release refused", d));
                rep.count("double_refused");
            }
            _ if r.chance(grow) || owned[d].is_empty() => {
                let s = if mixed { size(r) } else { *r.pick(&few) };
                match catch(|| dev.new_handle(s)) {
                    Ok(h) => {
                        log.push(format!("{}: {:x} = request of {}", d, a(&h), s));
                        check_new(&led[d], &mut owned[d], s, h, &log)?;
                        rep.count("requests");
                    }
                    Err(e) => {
                        ensure!(s > 1 << 31, "a request of {} elements panicked: {}; {:?}", s, e, log);
                        rep.count("too_large");
                    }
                }
            }
            _ => {
                let mut ks: Vec<usize> = owned[d].keys().copied().collect();
                ks.sort();
                let k = *r.pick(&ks);
                let (_, h) = owned[d].remove(&k).unwrap();
                log.push(format!("{}: release of {:x}", d, k));
                dev.drop_handle(&h);
                rep.count("releases");
            }
        }
        for k in 0..n {
            led[k].verdict().map_err(|m| format!("device {}: {}; {:?}", k, m, log))?;
            let b = led[k].book();
            for (h, (s, _)) in &owned[k] {
                ensure!(b.live.get(h).map_or(false, |c| *c >= *s as u64), "buffer {:x} of {} elements of device {} was freed while owned; {:?}", h, s, k, log);
            }
        }
        if r.chance(0.005) {
            finish(&mut devs[d], &led[d], &mut owned[d], &log)?;
        }
    }
    for d in 0..n {
        finish(&mut devs[d], &led[d], &mut owned[d], &log)?;
    }
    rep.distinct(&log.iter().map(|s| s.len()).collect::<Vec<_>>());
    rep.sample(|| log.join("; "));
    Ok(())
}
fn check_new(l: &Ledger, owned: &mut HashMap<usize, (u32, AtomicPtr<c_void>)>, s: u32, h: AtomicPtr<c_void>, log: &[String]) -> Result<(), String> {
    let k = a(&h);
    match l.capacity(k) {
        None => return Err(format!("a request of {} returned {:x}, which is no live buffer of the backend; {:?}", s, k, log)),
        Some(c) => ensure!(c >= s as u64, "a request of {} returned a buffer of {}; {:?}", s, c, log),
    }
    ensure!(!owned.contains_key(&k), "buffer {:x} was handed out although it is owned; {:?}", k, log);
    owned.insert(k, (s, h));
    Ok(())
}
fn finish(dev: &mut Option<Device<'static>>, l: &Ledger, owned: &mut HashMap<usize, (u32, AtomicPtr<c_void>)>, log: &[String]) -> Result<(), String> {
    if let Some(d) = dev.take() {
        for (_, (_, h)) in owned.drain() {
            d.drop_handle(&h);
        }
        drop(d);
        end(l).map_err(|m| format!("{}; {:?}", m, log))?;
    }
    Ok(())
}
fn end(l: &Ledger) -> Result<(), String> {
    l.verdict()?;
    let b = l.book();
    ensure!(b.live.is_empty(), "{} of {} buffers were not freed when the device was destroyed", b.live.len(), b.allocs);
    ensure!(b.frees == b.allocs, "{} buffers obtained, {} freed", b.allocs, b.frees);
    Ok(())
}

/// Threads that share one device, also releasing each other's buffers.
fn shared(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led = Arc::new(Ledger::new(true));
    let dev: Device<'static> = Device::new(Bare(led.clone()));
    let owned: Mutex<HashMap<usize, u32>> = Mutex::new(HashMap::new());
    let mail: Mutex<Vec<AtomicPtr<c_void>>> = Mutex::new(vec![]);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let n = r.range(2, 4);
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let few: Vec<u32> = (0..3).map(|_| size(r)).collect();
    std::thread::scope(|sc| {
        for s in seeds {
            let (dev, owned, mail, err, led, few) = (&dev, &owned, &mail, &err, &led, &few);
            sc.spawn(move || {
                let mut r = Rng::new(s);
                let mut mine = vec![];
                let back = |h: AtomicPtr<c_void>| {
                    owned.lock().unwrap().remove(&a(&h));
                    dev.drop_handle(&h);
                };
                for _ in 0..300 {
                    if r.chance(0.55) {
                        let s = if r.chance(0.3) { size(&mut r) } else { *r.pick(few) };
                        if s > 1 << 31 {
                            continue;
                        }
                        let h = dev.new_handle(s);
                        let k = a(&h);
                        let old = owned.lock().unwrap().insert(k, s);
                        let c = led.capacity(k);
                        if old.is_some() || c.map_or(true, |c| c < s as u64) {
                            *err.lock().unwrap() = Some(format!("a request of {} returned {:x} with capacity {:?}, owned with {:?}", s, k, c, old));
                            return;
                        }
                        if r.chance(0.2) {
                            mail.lock().unwrap().push(h);
                        } else {
                            mine.push(h);
                        }
                    } else {
                        let m = if r.chance(0.4) { mail.lock().unwrap().pop() } else { None };
                        if let Some(h) = m {
                            back(h);
                        } else if !mine.is_empty() {
                            let k = r.us(mine.len());
                            back(mine.swap_remove(k));
                        }
                    }
                }
                for h in mine {
                    back(h);
                }
            });
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        return Err(e);
    }
    for h in mail.into_inner().unwrap() {
        dev.drop_handle(&h);
    }
    rep.add("shared_requests", 300 * n as u64);
    drop(dev);
    end(&led)
}

/// Complete workloads on two devices.
fn full(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let led: Vec<Arc<Ledger>> = (0..2).map(|_| Arc::new(Ledger::new(false))).collect();
    let devs: Vec<Dev> = led.iter().map(|l| leak(device(l.clone()))).collect();
    let mut done = vec![];
    let mut res = Ok(());
    for _ in 0..r.range(1, 8) {
        let w = work::any(r);
        done.push(w);
        let max = *r.pick(&[20u64, 90, 90, 300]);
        let e = catch(|| work::work(w, devs[0], devs[1], r, rep, max));
        res = led[0].verdict().and(led[1].verdict()).map_err(|m| format!("in {:?}: {}", done, m));
        if res.is_ok() {
            res = match e {
                Ok(x) => x.map(|_| ()),
                Err(m) => Err(format!("{:?} panicked: {}", done, m)),
            };
        }
        if res.is_err() {
            return res;
        }
    }
    for (i, d) in devs.into_iter().enumerate() {
        unsafe { unleak(d) };
        end(&led[i]).map_err(|m| format!("device {} after {:?}: {}", i, done, m))?;
        let b = led[i].book();
        rep.add("buffers", b.allocs);
        rep.add("kernel_calls_checked", led[i].calls.load(Ordering::SeqCst));
        rep.distinct(&(b.sizes.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>(), led[i].calls.load(Ordering::SeqCst)));
    }
    rep.sample(|| format!("{:?}", done));
    res
}

/// Tensors of up to 2^31 elements on a backend whose buffers are made up and whose kernels do nothing.
fn giant(r: &mut Rng, rep: &mut Rep, kinds: &[&str]) -> Result<(), String> {
    let led = Arc::new(Ledger::new(true));
    let dev: Dev = leak(device(led.clone()));
    let mut log = vec![];
    for _ in 0..r.range(1, 4) {
        let what = r.us(3);
        let mut most = 0;
        let res = if what == 0 {
            // just above, at and below powers of two
            let k = r.range(6, 31) as u32;
            let by = *r.pick(&[0i64, 1, -1, 2, 7, 15, 16, 17, 100]);
            let n = ((1i64 << k) + by).clamp(1, 1 << 31) as u64;
            let s = if r.chance(0.5) { Sh::new(&[n as u32], 1) } else { Sh::new(&[], n as u32) };
            log.push(format!("{:?}", s));
            catch(|| {
                let t = dev.new_tensor_by_constant(s.real(), 1.);
                let mut u = dev.copy_tensor(&t);
                u += &t;
                u *= 2.;
                let v = &t * &u;
                let w = v.reshape(Sh::new(&[n as u32], 1).real());
                let p = dev.new_parameter(s.with_b(1).real(), &prima_undine::initializers::Constant::new(0.));
                (t, u, w, p);
            })
        } else {
            let kind = *r.pick(kinds);
            let max = hcore::gen::tail(r, 1 << 10, 1 << 30);
            let (op, mut shapes) = hcore::gen::op(r, kind, max);
            if r.chance(0.6) && shapes.iter().all(|s| s.b == 1) {
                // many samples
                let room = (1u64 << 30) / shapes.iter().chain(&op.infer(&shapes).unwrap_or_default()).map(|s| s.vol()).max().unwrap();
                if room >= 2 {
                    let b = hcore::gen::tail(r, 1, room) as u32;
                    let some: Vec<Sh> = shapes.iter().map(|s| if r.chance(0.7) { s.with_b(b) } else { *s }).collect();
                    if op.infer(&some).map_or(false, |o| o.iter().all(|s| s.size() <= 1 << 31)) {
                        shapes = some;
                    }
                }
            }
            if op.infer(&shapes).is_none() || shapes.iter().any(|s| !s.fits()) {
                continue;
            }
            log.push(format!("{:?} on {:?}", op, shapes));
            most = shapes.iter().chain(&op.infer(&shapes).unwrap_or_default()).map(|s| s.size()).max().unwrap_or(0);
            rep.max("elements_of_a_tensor", shapes.iter().map(|s| s.size()).max().unwrap_or(0));
            catch(|| {
                let xs: Vec<_> = shapes.iter().map(|s| dev.new_tensor_by_constant(s.real(), 1.)).collect();
                let refs: Vec<&_> = xs.iter().collect();
                if what == 1 || !op.lazy() {
                    eager(&op, &refs, r.below(4) as u32);
                } else {
                    let ns: Vec<prima_undine::Node> = refs.iter().map(|x| prima_undine::Node::from(*x)).collect();
                    let rn: Vec<&prima_undine::Node> = ns.iter().collect();
                    lazy(&op, &rn, 0)[0].backward();
                }
            })
        };
        led.verdict().map_err(|m| format!("{:?}: {}", log, m))?;
        if let Err(m) = res {
            ensure!(most > 1 << 31, "{:?} panicked: {}", log, m);
            rep.count("giant_refused");
        }
        rep.count(["giant_tensors", "giant_operations", "giant_graphs"][what]);
    }
    unsafe { unleak(dev) };
    end(&led).map_err(|m| format!("after {:?}: {}", log, m))?;
    rep.add("giant_kernel_calls_checked", led.calls.load(Ordering::SeqCst));
    rep.distinct(&log);
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("direct", cfg.q(25_000, 500_000), 7., || (), |_, r, rep| direct(r, rep));
    cfg.stage("shared", cfg.q(1500, 40_000), 6., || (), |_, r, rep| shared(r, rep));
    cfg.stage("workloads", cfg.q(30_000, 600_000), 14., || (), |_, r, rep| full(r, rep));
    // index lists and lists of results would have to be long themselves
    let few: Vec<&str> = KINDS.iter().copied().filter(|k| !["Pick", "BatchPick", "SparseSce", "Split", "BatchSplit", "Concat", "BatchConcat"].contains(k)).collect();
    cfg.stage("giant", cfg.q(20_000, 400_000), 5., || (), |_, r, rep| giant(r, rep, &few));
    cfg.finish(
        "direct requests and releases of all sizes on several devices with failing backends, double and foreign releases, from one and several threads; complete workloads (graphs, eager programs, training, tensor histories, saving, refused calls) on two devices with a backend that keeps a ledger: capacity, exclusive ownership, liveness and distinctness of buffers at every kernel call, every buffer freed exactly once at the end; operations, graphs and histories on tensors of up to 2^31 elements with made-up buffers and kernels that do nothing",
        &["requests of more than 2^31 elements may be refused"],
    )
}
