//! Training histories against the published update rules.
use crate::gen;
use crate::ops::*;
use crate::refm::*;
use crate::util::*;
use crate::{check, ensure};
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{initializers as I, Node, Optimizer, OptimizerBase, Parameter};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Sgd,
    Momentum,
    Adam,
}

/// Object-safe access to all kinds.
pub trait AnyOpt {
    fn update(&mut self, p: &mut [&mut Parameter]);
    fn one(&self, scale: f32, p: &mut Parameter);
    fn configure(&self, p: &mut [&mut Parameter]);
    fn base(&mut self) -> &mut dyn OptimizerBase;
    fn update_vec(&mut self, p: &mut Vec<Parameter<'static>>);
    fn configure_vec(&self, p: &mut Vec<Parameter<'static>>);
}
impl<T: Optimizer> AnyOpt for T {
    fn update(&mut self, p: &mut [&mut Parameter]) {
        self.update_parameters(p)
    }
    fn one(&self, scale: f32, p: &mut Parameter) {
        self.update_parameter(scale, p)
    }
    fn configure(&self, p: &mut [&mut Parameter]) {
        self.configure_parameters(p)
    }
    fn base(&mut self) -> &mut dyn OptimizerBase {
        self
    }
    fn update_vec(&mut self, p: &mut Vec<Parameter<'static>>) {
        self.update_model(p)
    }
    fn configure_vec(&self, p: &mut Vec<Parameter<'static>>) {
        self.configure_model(p)
    }
}

pub struct Opt {
    pub kind: Kind,
    pub h: [f32; 4],
    pub decay: f32,
    pub clip: f32,
    pub rate: f32,
    pub epoch: u32,
    pub o: Box<dyn AnyOpt>,
}
impl std::fmt::Debug for Opt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}{:?} decay {} clip {} rate {} epoch {}", self.kind, self.h, self.decay, self.clip, self.rate, self.epoch)
    }
}

pub fn make(r: &mut Rng) -> Opt {
    let eta = *r.pick(&[0.1f32, 0.01, 1., 0.5, 1e-3, 3., 0.25]);
    let kind = *r.pick(&[Kind::Sgd, Kind::Momentum, Kind::Adam]);
    let h = match kind {
        Kind::Sgd => [eta, 0., 0., 0.],
        Kind::Momentum => [eta, *r.pick(&[0.9f32, 0.5, 0., 0.99, 1., 0.123]), 0., 0.],
        Kind::Adam => [
            *r.pick(&[1e-3f32, 0.1, 0.01, 1.]),
            *r.pick(&[0.9f32, 0.5, 0., 0.99, 0.75]),
            *r.pick(&[0.999f32, 0.9, 0.99, 0.5, 0.]),
            *r.pick(&[1e-8f32, 1e-3, 1e-8, 1., 0.1]),
        ],
    };
    make_as(kind, h)
}
pub fn make_as(kind: Kind, h: [f32; 4]) -> Opt {
    let o: Box<dyn AnyOpt> = match kind {
        Kind::Sgd => Box::new(SGD::new(h[0])),
        Kind::Momentum => Box::new(MomentumSGD::new(h[0], h[1])),
        Kind::Adam => Box::new(Adam::new(h[0], h[1], h[2], h[3])),
    };
    Opt { kind, h, decay: 0., clip: 0., rate: 1., epoch: 0, o }
}

fn k(x: f32) -> Ev {
    Ev::c(x as f64)
}
/// One update of one element: value, gradient, statistics.
fn rule(o: &Opt, scale: f32, v: Ev, g: Ev, st: &mut [Ev; 2]) -> Ev {
    let t = o.epoch as f64 + 1.;
    match o.kind {
        Kind::Sgd => v.sub(k(scale).mul(k(o.h[0])).mul(g)),
        Kind::Momentum => {
            st[0] = st[0].mul(k(o.h[1])).sub(k(scale).mul(k(o.h[0])).mul(g));
            v.add(st[0])
        }
        Kind::Adam => {
            let (b1, b2) = (o.h[1] as f64, o.h[2] as f64);
            let one = |b: f64| Ev { v: 1. - b, e: 1.2e-7 * (1. - b) };
            st[0] = st[0].mul(k(o.h[1])).add(one(b1).mul(g));
            st[1] = st[1].mul(k(o.h[2])).add(one(b2).mul(g).mul(g));
            let bc = |b: f64| {
                let p = b.powf(t);
                Ev { v: 1. - p, e: 1.3e-7 * p + 6e-8 * (1. - p) }
            };
            let m = st[0].div(bc(b1));
            let s = st[1].div(bc(b2));
            v.sub(k(scale).mul(k(o.h[0])).mul(m).div(s.sqrt().add(k(o.h[3]))))
        }
    }
}

#[derive(Clone, Debug)]
struct P {
    s: Sh,
    name: usize,
    /// per statistic kind, per element
    st: BTreeMap<Kind, Vec<[Ev; 2]>>,
}

pub struct Features {
    /// decay, clipping, rate scaling, settings
    pub extra: bool,
    pub steps: i64,
    pub elements: u64,
}

fn snapshot(p: &Parameter) -> Vec<(String, Vec<f32>)> {
    let mut v = vec![("value".to_string(), p.value.to_vec()), ("gradient".to_string(), p.gradient.to_vec())];
    let mut names: Vec<&String> = p.stats.keys().collect();
    names.sort();
    for n in names {
        v.push((n.clone(), p.stats[n].borrow().to_vec()));
    }
    v
}
fn same(a: &[(String, Vec<f32>)], b: &[(String, Vec<f32>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && check::same_bits(&x.1, &y.1))
}

/// One training history.
pub fn history(dev: Dev, f: &Features, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = if r.chance(0.03) { gen::tail(r, 7, 150) as i64 } else { r.range(1, 6) } as usize;
    let mut log = String::new();
    let mut models: Vec<P> = vec![];
    let mut params: Vec<Parameter<'static>> = vec![];
    for i in 0..n {
        let max = if r.chance(0.1) { f.elements * 20 } else { f.elements };
        let s = gen::shape(r, max).with_b(1);
        let mut p: Parameter<'static> = dev.new_parameter(s.real(), &I::Constant::new(0.));
        let sc = *r.pick(&[1., 1., 100., 1e-3]);
        let v: Vec<f32> = (0..s.n()).map(|_| (sc * r.uni(-1., 1.)) as f32).collect();
        dev.reset_tensor_by_slice(&mut p.value, &v);
        params.push(p);
        models.push(P { s, name: i, st: BTreeMap::new() });
    }
    let mut opts: Vec<Opt> = (0..if r.chance(0.3) { 2 } else { 1 }).map(|_| make(r)).collect();
    use std::fmt::Write;
    let _ = write!(log, "shapes {:?}, optimizers {:?}", models.iter().map(|m| m.s).collect::<Vec<_>>(), opts);
    let steps = if r.chance(0.02) { gen::tail(r, f.steps as u64, 5 * f.steps as u64) as i64 } else { r.range(1, f.steps) };
    let big = r.chance(0.1);
    // tiny weight decay, thresholds and gradients, made visible by a large rate scale
    let fine = f.extra && r.chance(0.1);
    for step in 0..steps {
        let oi = r.us(opts.len());
        let o = &mut opts[oi];
        // settings
        if f.extra && (step == 0 || r.chance(0.3)) {
            for _ in 0..r.range(1, 3) {
                let q = r.us(3);
                let tiny = fine && r.chance(0.7);
                let x = match q {
                    0 if tiny => *r.pick(&[1e-8f32, 5e-8, 1e-7, 1e-6, 1e-10]),
                    1 if tiny => *r.pick(&[1e-8f32, 1e-7, 1e-6, 1e-10]),
                    _ if tiny => *r.pick(&[1e6f32, 1e7, 1e8, 1e-7]),
                    0 => *r.pick(&[0f32, 0.01, 0.1, 1., 0.5]),
                    1 => *r.pick(&[0f32, 0.1, 1., 5., 100., 1e-3, 1e6]),
                    _ => *r.pick(&[1f32, 0.5, 0., 2., 0.1]),
                };
                match q {
                    0 => {
                        o.o.base().set_weight_decay(x);
                        o.decay = x
                    }
                    1 => {
                        o.o.base().set_gradient_clipping(x);
                        o.clip = x
                    }
                    _ => {
                        o.o.base().set_learning_rate_scaling(x);
                        o.rate = x
                    }
                }
            }
            if r.chance(0.3) {
                let bad = *r.pick(&[-1f32, -1e-30, f32::NEG_INFINITY, -0.5]);
                let q = r.us(3);
                let b = o.o.base();
                let e = catch(|| match q {
                    0 => b.set_weight_decay(bad),
                    1 => b.set_gradient_clipping(bad),
                    _ => b.set_learning_rate_scaling(bad),
                });
                ensure!(e.is_err(), "setting {} to {} was accepted", ["weight decay", "gradient clipping", "the rate scale"][q], bad);
                rep.count("settings_refused");
            }
            let _ = write!(log, "; set {:?}", o);
        }
        if !f.extra && r.chance(0.03) {
            // a schedule of the rate, without the other features
            let x = *r.pick(&[1f32, 0.5, 0., 2., 0.1]);
            o.o.base().set_learning_rate_scaling(x);
            o.rate = x;
            let _ = write!(log, "; rate scale {} for optimizer {}", x, oi);
        }
        {
            let b = o.o.base();
            let got = (b.get_weight_decay(), b.get_gradient_clipping(), b.get_learning_rate_scaling(), *b.epoch());
            ensure!(
                got == (o.decay, o.clip, o.rate, o.epoch),
                "weight decay, clipping, rate scale and step counter read {:?}, expected {:?}: {}", got, (o.decay, o.clip, o.rate, o.epoch), log
            );
        }
        if r.chance(0.03) {
            o.epoch = match r.us(3) {
                0 => *r.pick(&[0u32, 1, 10, 1000, 100_000]),
                // about the bounds of narrower counters
                1 => *r.pick(&[1u32 << 7, 1 << 8, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 24]) - r.range(0, 4) as u32,
                _ => 1 << r.us(25),
            };
            *o.o.base().epoch() = o.epoch;
            let _ = write!(log, "; counter := {}", o.epoch);
        }
        // the parameters of this step
        let mut ids: Vec<usize> = (0..n).collect();
        let whole = r.chance(0.4);
        if !whole {
            r.shuffle(&mut ids);
            let least = if r.chance(0.1) { 0 } else { 1 };
            ids.truncate(r.range(least, n as i64) as usize);
        }
        // configure: whatever is new, and at random again
        let mut conf: Vec<usize> = ids.iter().copied().filter(|&i| !models[i].st.contains_key(&o.kind)).collect();
        if r.chance(0.15) {
            conf = (0..n).collect();
        }
        if !conf.is_empty() {
            if conf.len() == n && r.chance(0.5) {
                o.o.configure_vec(&mut params);
            } else {
                let mut refs: Vec<&mut Parameter> = params.iter_mut().enumerate().filter(|(i, _)| conf.contains(i)).map(|x| x.1).collect();
                o.o.configure(&mut refs);
            }
            for &i in &conf {
                let ne = models[i].s.n();
                models[i].st.entry(o.kind).or_insert_with(|| vec![[Ev::c(0.); 2]; ne]);
            }
            rep.count("configurations");
        }
        // gradients
        for i in 0..n {
            if !ids.contains(&i) && r.chance(0.5) {
                continue;
            }
            let sc = if fine { *r.pick(&[0., 1e-7, 1e-8, 1e-6]) } else if big { *r.pick(&[1e4, 1e6, 1e-5, 1e8]) } else { *r.pick(&[1., 1., 10., 0.01]) };
            let zero = r.chance(0.1);
            let g: Vec<f32> = (0..models[i].s.n()).map(|_| if zero || r.chance(0.05) { 0. } else { (sc * r.uni(-1., 1.)) as f32 }).collect();
            if r.chance(0.5) {
                dev.reset_tensor_by_slice(&mut params[i].gradient, &g);
            } else {
                let s = models[i].s;
                let c = tensor(dev, s, &g);
                let x = Node::from(&mut params[i]);
                let l = (x * Node::from(c)).flatten().sum(0);
                l.backward();
                rep.count("gradients_by_backward");
            }
        }
        let before: Vec<Vec<(String, Vec<f32>)>> = params.iter().map(snapshot).collect();
        if before.iter().flatten().flat_map(|x| &x.1).any(|x| !(x.abs() < 1e15)) {
            rep.count("diverged");
            break;
        }
        // the model's step
        let direct = !f.extra && r.chance(0.15);
        let mut gs: Vec<Vec<Ev>> = ids
            .iter()
            .map(|&i| {
                let (v, g) = (&before[i][0].1, &before[i][1].1);
                v.iter().zip(g).map(|(&v, &g)| if o.decay > 0. { k(g).add(k(o.decay).mul(k(v))) } else { k(g) }).collect()
            })
            .collect();
        let mut state = "off";
        if o.clip > 0. {
            let ne: usize = gs.iter().map(|g| g.len()).sum();
            let sq: f64 = gs.iter().flatten().map(|g| g.v * g.v).sum();
            let er: f64 = gs.iter().flatten().map(|g| 2. * g.v.abs() * g.e).sum::<f64>() + sq * U * (ne as f64 + 4.);
            let (norm, thr) = (sq.sqrt(), o.clip as f64);
            // near the threshold both outcomes agree within the tolerance
            if norm > thr {
                let e = if norm > 0. { er / norm } else { 0. } + norm * 4. * U;
                let s = Ev { v: thr / norm, e: thr / norm * (e / norm + 4. * U) };
                gs.iter_mut().flatten().for_each(|g| *g = g.mul(s));
                state = "clipped";
            } else {
                state = "below";
                if norm * (1. + 1e-3) > thr {
                    let e = er / norm.max(1e-300) + 4. * U * norm;
                    gs.iter_mut().flatten().for_each(|g| g.e += g.v.abs() * e / norm.max(1e-300));
                }
            }
        }
        rep.count(&format!("clipping_{}", state));
        let scale = if direct { *r.pick(&[1f32, 0.5, 2., 0., 0.01]) } else { o.rate };
        let mut want: Vec<Vec<Ev>> = vec![];
        for (j, &i) in ids.iter().enumerate() {
            let v = &before[i][0].1;
            let mut row = vec![];
            let st = models[i].st.get_mut(&o.kind).unwrap();
            for e in 0..v.len() {
                row.push(rule(o, scale, k(v[e]), gs[j][e], &mut st[e]));
            }
            want.push(row);
        }
        let _ = write!(log, "; step {} with optimizer {} on {:?}{}", step, oi, ids, if direct { " (direct)" } else { "" });
        // the real step
        if direct {
            for &i in &ids {
                o.o.one(scale, &mut params[i]);
            }
        } else if whole && r.chance(0.5) {
            o.o.update_vec(&mut params);
        } else {
            let mut slots: Vec<Option<&mut Parameter>> = params.iter_mut().map(Some).collect();
            let mut refs: Vec<&mut Parameter> = ids.iter().map(|&i| slots[i].take().unwrap()).collect();
            o.o.update(&mut refs);
        }
        if !direct {
            o.epoch += 1;
        }
        ensure!(*o.o.base().epoch() == o.epoch, "the step counter is {} instead of {}: {}", *o.o.base().epoch(), o.epoch, log);
        for (j, &i) in ids.iter().enumerate() {
            let got = params[i].value.to_vec();
            let w: Vec<f64> = want[j].iter().map(|e| e.v).collect();
            let tol: Vec<f64> = want[j].iter().map(|e| 4. * e.e + 2e-7 * e.v.abs() + 1e-37).collect();
            check::near(&got, &w, &tol).map_err(|m| format!("value of parameter {} (before {:?} gradient {:?}): {}; {}", i, &before[i][0].1, &before[i][1].1, m, log))?;
            let g = params[i].gradient.to_vec();
            if direct {
                ensure!(check::same_bits(&g, &before[i][1].1), "the update rule changed the gradient of parameter {}: {}", i, log);
            } else {
                ensure!(g.iter().all(|x| *x == 0.), "gradient of parameter {} after the step: {:?}; {}", i, g, log);
            }
            let rel = w.iter().zip(&got).zip(&before[i][0].1).any(|((w, _), b)| *w != *b as f64);
            if rel {
                rep.count("values_moved");
            }
            rep.add("elements_compared", got.len() as u64);
        }
        for i in 0..n {
            ensure!(params[i].shape() == models[i].s.real(), "parameter {} changed its shape: {}", i, log);
            if !ids.contains(&i) {
                ensure!(same(&snapshot(&params[i]), &before[i]), "parameter {}, which was not passed, changed: {}", i, log);
            }
            ensure!(models[i].name == i, "order");
        }
        rep.count("steps");
    }
    rep.max("steps", steps as u64);
    rep.distinct(&log);
    rep.sample(|| log.clone());
    Ok(())
}

