//! C13: weight decay, clipping, rate scale and the bookkeeping of a step.
use hcore::ensure;
use hcore::gen;
use hcore::ops::*;
use hcore::optm::*;
use hcore::refm::*;
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Model, Optimizer, OptimizerBase, Parameter};
use std::cell::RefCell;

/// What a rule saw when it was called.
struct Seen {
    who: *const (),
    scale: f32,
    value: Vec<f32>,
    gradient: Vec<f32>,
    epoch: u32,
}
/// An optimizer as a user writes one.
struct Mine {
    epoch: u32,
    decay: f32,
    clip: f32,
    rate: f32,
    /// the rate scale halves with every step
    schedule: bool,
    /// the rule leaves something in the gradient
    untidy: bool,
    configured: RefCell<Vec<*const ()>>,
    seen: RefCell<Vec<Seen>>,
}
impl OptimizerBase for Mine {
    fn epoch(&mut self) -> &mut u32 {
        &mut self.epoch
    }
    fn get_learning_rate_scaling(&self) -> f32 {
        if self.schedule {
            self.rate * 0.5f32.powi(self.epoch.min(20) as i32)
        } else {
            self.rate
        }
    }
    fn set_learning_rate_scaling(&mut self, x: f32) {
        self.rate = x
    }
    fn get_weight_decay(&self) -> f32 {
        self.decay
    }
    fn set_weight_decay(&mut self, x: f32) {
        self.decay = x
    }
    fn get_gradient_clipping(&self) -> f32 {
        self.clip
    }
    fn set_gradient_clipping(&mut self, x: f32) {
        self.clip = x
    }
}
impl Optimizer for Mine {
    fn configure_parameter(&self, p: &mut Parameter) {
        self.configured.borrow_mut().push(p as *const _ as *const ());
    }
    fn update_parameter(&self, scale: f32, p: &mut Parameter) {
        self.seen.borrow_mut().push(Seen { who: p as *const _ as *const (), scale, value: p.value.to_vec(), gradient: p.gradient.to_vec(), epoch: self.epoch });
        let d = scale * &p.gradient;
        p.value -= &d;
        if self.untidy {
            p.gradient.reset(3.);
        }
    }
}
/// A model as a user writes one: some of its parameters, some twice as deep as others.
struct Hand {
    a: Vec<Parameter<'static>>,
    frozen: Parameter<'static>,
    b: Parameter<'static>,
}
impl Model<'static> for Hand {
    fn parameters(&self) -> Vec<&Parameter<'static>> {
        self.a.iter().chain(Some(&self.b)).collect()
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'static>> {
        self.a.iter_mut().chain(Some(&mut self.b)).collect()
    }
}

fn own_rule(dev: Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = r.range(1, 6) as usize;
    let sc = *r.pick(&[1., 1., 100., 1e-3]);
    let mk = |r: &mut Rng| -> Parameter<'static> {
        let max = gen::limit(r, 12, 600, 0.03);
        let s = gen::shape(r, max).with_b(1);
        let v: Vec<f32> = (0..s.n()).map(|_| (sc * r.uni(-1., 1.)) as f32).collect();
        Parameter::new(tensor(dev, s, &v), tensor(dev, s, &vec![0.; s.n()]))
    };
    let mut m = Hand { a: (0..n - 1).map(|_| mk(r)).collect(), frozen: mk(r), b: mk(r) };
    let mut o = Mine {
        epoch: *r.pick(&[0, 0, 7, 65535]),
        decay: *r.pick(&[0f32, 0., 0.01, 0.5, 2.]),
        clip: *r.pick(&[0f32, 0., 0.1, 1., 50.]),
        rate: *r.pick(&[1f32, 0.5, 0., 2.]),
        schedule: r.chance(0.3),
        untidy: r.chance(0.2),
        configured: RefCell::default(),
        seen: RefCell::default(),
    };
    let what = format!("own optimizer, decay {} clip {} rate {}{} step {}, {} parameters", o.decay, o.clip, o.rate, if o.schedule { " halving" } else { "" }, o.epoch, n);
    let ptr = |m: &Hand| -> Vec<*const ()> { m.parameters().iter().map(|p| *p as *const _ as *const ()).collect() };
    let all = ptr(&m);
    let sorted = |mut v: Vec<*const ()>| {
        v.sort();
        v
    };
    let via = r.us(2);
    if via == 0 {
        o.configure_model(&mut m);
    } else {
        o.configure_parameters(&mut m.parameters_mut());
    }
    ensure!(sorted(o.configured.take()) == sorted(all.clone()), "{}: configuring did not reach every parameter once", what);
    for step in 0..r.range(1, 4) {
        let zero = r.chance(0.1);
        let g: Vec<Vec<f32>> = m.parameters().iter().map(|p| (0..p.shape().size()).map(|_| if zero { 0. } else { r.uni(-2., 2.) as f32 }).collect()).collect();
        let v: Vec<Vec<f32>> = m.parameters().iter().map(|p| p.value.to_vec()).collect();
        for (p, g) in m.parameters_mut().into_iter().zip(&g) {
            dev.reset_tensor_by_slice(&mut p.gradient, g);
        }
        let ones = vec![1.; m.frozen.shape().size() as usize];
        dev.reset_tensor_by_slice(&mut m.frozen.gradient, &ones);
        let fr = m.frozen.value.to_vec();
        let mut want: Vec<Vec<f64>> = g.iter().zip(&v).map(|(g, v)| g.iter().zip(v).map(|(g, v)| *g as f64 + o.decay as f64 * *v as f64).collect()).collect();
        let norm = want.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
        if o.clip > 0. && norm > o.clip as f64 {
            want.iter_mut().flatten().for_each(|x| *x *= o.clip as f64 / norm);
            rep.count("own_clipped");
        }
        let (e, rate) = (o.epoch, o.get_learning_rate_scaling());
        if via == 0 {
            o.update_model(&mut m);
        } else {
            o.update_parameters(&mut m.parameters_mut());
        }
        ensure!(o.epoch == e + 1, "{} step {}: the counter went from {} to {}", what, step, e, o.epoch);
        let seen = o.seen.take();
        ensure!(sorted(seen.iter().map(|s| s.who).collect()) == sorted(all.clone()), "{} step {}: the rule ran {} times", what, step, seen.len());
        let top = want.iter().flatten().fold(0f64, |a, x| a.max(x.abs())) + sc * o.decay as f64;
        for s in &seen {
            let k = all.iter().position(|p| *p == s.who).unwrap();
            ensure!(s.epoch == e, "{} step {}: the counter was {} for the rule of parameter {}", what, step, s.epoch, k);
            ensure!(s.scale == rate, "{} step {}: the rule got the scale {} instead of {}", what, step, s.scale, rate);
            ensure!(s.value == v[k], "{} step {}: the rule saw the value {:?} of parameter {} instead of {:?}", what, step, s.value, k, v[k]);
            for (a, b) in s.gradient.iter().zip(&want[k]) {
                ensure!((*a as f64 - b).abs() <= 1e-4 * b.abs() + 1e-6 * top, "{} step {}: the rule saw the gradient {:?} of parameter {} instead of {:?}", what, step, s.gradient, k, want[k]);
                rep.count("own_gradient_elements");
            }
            let p = m.parameters()[k];
            let now = p.value.to_vec();
            ensure!(now.iter().zip(&v[k]).zip(&s.gradient).all(|((a, b), g)| (a - (b - s.scale * g)).abs() <= 1e-5 * (b.abs() + (s.scale * g).abs())), "{} step {}: the value of parameter {} was changed after the rule: {:?}", what, step, k, now);
            ensure!(p.gradient.to_vec().iter().all(|x| *x == 0.), "{} step {}: gradient of parameter {} after the step: {:?}", what, step, k, p.gradient.to_vec());
        }
        ensure!(m.frozen.value.to_vec() == fr && m.frozen.gradient.to_vec() == ones, "{} step {}: a parameter outside of the model's list changed", what, step);
        rep.count("own_steps");
    }
    rep.distinct(&what);
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    let short = Features { extra: true, steps: 10, elements: 30 };
    cfg.stage("short", cfg.q(60_000, 2_000_000), 12., naive, |d, r, rep| history(*d, &short, r, rep));
    let long = Features { extra: true, steps: 300, elements: 8 };
    cfg.stage("long", cfg.q(1_500, 60_000), 12., naive, |d, r, rep| history(*d, &long, r, rep));
    let large = Features { extra: true, steps: 5, elements: 2000 };
    cfg.stage("large", cfg.q(600, 30_000), 8., naive, |d, r, rep| history(*d, &large, r, rep));
    cfg.stage("own", cfg.q(60_000, 1_500_000), 6., naive, |d, r, rep| own_rule(*d, r, rep));
    cfg.finish(
        "training histories as for C12 with weight decay, clipping and rate scale set and changed at random (tiny ones too, and refused values); after every step values are compared with decay, then clipping over all gradients of the step, then the scaled rule, gradients of updated parameters must be zero, the counter one higher, parameters that were not passed bitwise unchanged, settings as set; the same around a user-written rule and model that record what the step hands them",
        &["gradient norms whose square is not representable in single precision are not generated"],
    )
}
