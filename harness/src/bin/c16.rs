//! C16: what models enumerate. The structs are generated (tools/gen_c16.py), together with an
//! independent description of their parameters.
use hcore::gen;
use hcore::ops::*;
use hcore::optm::make_as;
use hcore::optm::Kind;
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Optimizer, Parameter, Shape, Tensor};

pub struct W {
    dev: Dev,
    other: Dev,
}
fn w() -> W {
    W { dev: naive(), other: naive() }
}

pub struct Ctx<'r> {
    dev: Dev,
    r: &'r mut Rng,
    next: u32,
    depth: u32,
    /// reloaded parameters that are on no device
    host: bool,
    budget: u32,
}
impl<'r> Ctx<'r> {
    fn len(&mut self) -> usize {
        if self.budget == 0 || self.depth > 6 {
            return self.r.us(2).min(self.budget as usize);
        }
        *self.r.pick(&[0, 1, 1, 2, 2, 3, 5])
    }
}

/// All parameters inside, in declaration and element order, with whether the model owns them.
pub trait Tree {
    fn build(c: &mut Ctx) -> Self;
    fn all(&mut self, inc: bool, out: &mut Vec<(bool, *mut Parameter<'static>)>);
}
impl Tree for Parameter<'static> {
    fn build(c: &mut Ctx) -> Self {
        c.next += 1;
        c.budget = c.budget.saturating_sub(1);
        let s = gen::shape(c.r, 4).with_b(1);
        let id = c.next as f32;
        let v = vec![id; s.n()];
        let g = vec![0.5; s.n()];
        if c.host {
            Parameter::new(Tensor::new_host_tensor(s.real(), v), Tensor::new_host_tensor(s.real(), g))
        } else {
            Parameter::new(tensor(c.dev, s, &v), tensor(c.dev, s, &g))
        }
    }
    fn all(&mut self, inc: bool, out: &mut Vec<(bool, *mut Parameter<'static>)>) {
        out.push((inc, self))
    }
}
impl<T: Tree> Tree for Vec<T> {
    fn build(c: &mut Ctx) -> Self {
        let n = c.len();
        (0..n).map(|_| T::build(c)).collect()
    }
    fn all(&mut self, inc: bool, out: &mut Vec<(bool, *mut Parameter<'static>)>) {
        self.iter_mut().for_each(|x| x.all(inc, out))
    }
}
impl<T: Tree> Tree for Option<T> {
    fn build(c: &mut Ctx) -> Self {
        if c.r.chance(0.5) {
            Some(T::build(c))
        } else {
            None
        }
    }
    fn all(&mut self, inc: bool, out: &mut Vec<(bool, *mut Parameter<'static>)>) {
        self.iter_mut().for_each(|x| x.all(inc, out))
    }
}
impl<T: Tree> Tree for Box<T> {
    fn build(c: &mut Ctx) -> Self {
        Box::new(T::build(c))
    }
    fn all(&mut self, inc: bool, out: &mut Vec<(bool, *mut Parameter<'static>)>) {
        (**self).all(inc, out)
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $(
        impl Tree for $t {
            fn build(_: &mut Ctx) -> Self {
                Default::default()
            }
            fn all(&mut self, _: bool, _: &mut Vec<(bool, *mut Parameter<'static>)>) {}
        }
    )* };
}
plain!(f32, u32, String, (u32, f32), [u8; 3]);
impl<const N: usize> Tree for [f32; N] {
    fn build(_: &mut Ctx) -> Self {
        [0.; N]
    }
    fn all(&mut self, _: bool, _: &mut Vec<(bool, *mut Parameter<'static>)>) {}
}
impl<T> Tree for std::marker::PhantomData<T> {
    fn build(_: &mut Ctx) -> Self {
        std::marker::PhantomData
    }
    fn all(&mut self, _: bool, _: &mut Vec<(bool, *mut Parameter<'static>)>) {}
}

fn build<M: Tree>(dev: Dev, r: &mut Rng, host: bool) -> Box<M> {
    let mut c = Ctx { dev, r, next: 0, depth: 0, host, budget: 60 };
    Box::new(M::build(&mut c))
}

pub fn check_model<M: Model<'static> + Tree>(w: &mut W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut m: Box<M> = build(w.dev, r, false);
    let mut all = vec![];
    m.all(true, &mut all);
    let want: Vec<*const Parameter<'static>> = all.iter().filter(|x| x.0).map(|x| x.1 as *const _).collect();
    let id = |p: *const Parameter<'static>| all.iter().position(|x| x.1 as *const _ == p);
    let ids = |v: &[*const Parameter<'static>]| -> Vec<Option<usize>> { v.iter().map(|p| id(*p)).collect() };
    for _ in 0..2 {
        let got: Vec<*const Parameter<'static>> = m.parameters().iter().map(|p| *p as *const _).collect();
        ensure!(got == want, "parameters() lists {:?}, expected {:?} of {}", ids(&got), ids(&want), all.len());
        let got: Vec<*const Parameter<'static>> = m.parameters_mut().iter().map(|p| &**p as *const _).collect();
        ensure!(got == want, "parameters_mut() lists {:?}, expected {:?} of {}", ids(&got), ids(&want), all.len());
    }
    // the values are still the ones the parameters were made with
    let values: Vec<Vec<f32>> = all.iter().map(|p| unsafe { &*p.1 }.value.to_vec()).collect();
    // configuring and updating
    let kind = *r.pick(&[Kind::Sgd, Kind::Momentum, Kind::Adam]);
    let stat: &[&str] = match kind {
        Kind::Sgd => &[],
        Kind::Momentum => &["MomentumSGD.m"],
        Kind::Adam => &["Adam.m1", "Adam.m2"],
    };
    let mut sgd = SGD::new(0.25);
    let mut mom = MomentumSGD::new(0.25, 0.5);
    let mut adam = Adam::new(0.25, 0.5, 0.5, 0.1);
    match kind {
        Kind::Sgd => sgd.configure_model(&mut *m),
        Kind::Momentum => mom.configure_model(&mut *m),
        Kind::Adam => adam.configure_model(&mut *m),
    }
    for (k, (inc, p)) in all.iter().enumerate() {
        let p = unsafe { &**p };
        ensure!(p.stats.len() == if *inc { stat.len() } else { 0 }, "{} statistics on parameter {} ({})", p.stats.len(), k, if *inc { "owned" } else { "skipped" });
        ensure!(!*inc || stat.iter().all(|s| p.has_stat(s)), "a statistic is missing on parameter {}", k);
    }
    match kind {
        Kind::Sgd => sgd.update_model(&mut *m),
        Kind::Momentum => mom.update_model(&mut *m),
        Kind::Adam => adam.update_model(&mut *m),
    }
    // the same step on a parameter on its own
    let mut probe = Parameter::new(w.dev.new_tensor_by_constant(Shape::new(&[], 1), 0.), w.dev.new_tensor_by_constant(Shape::new(&[], 1), 0.5));
    {
        let h = match kind {
            Kind::Sgd => [0.25, 0., 0., 0.],
            Kind::Momentum => [0.25, 0.5, 0., 0.],
            Kind::Adam => [0.25, 0.5, 0.5, 0.1],
        };
        let mut o = make_as(kind, h);
        o.o.configure(&mut [&mut probe]);
        o.o.update(&mut [&mut probe]);
    }
    let step = probe.value.to_vec()[0];
    for (k, (inc, p)) in all.iter().enumerate() {
        let p = unsafe { &**p };
        let (v, g) = (p.value.to_vec(), p.gradient.to_vec());
        if *inc {
            ensure!(v.iter().zip(&values[k]).all(|(a, b)| (a - (b + step)).abs() <= 1e-4), "parameter {} was {:?} and became {:?} in a step of {}", k, values[k], v, step);
            ensure!(g.iter().all(|x| *x == 0.), "gradient of parameter {} after the step: {:?}", k, g);
        } else {
            ensure!(check::same_bits(&v, &values[k]) && g.iter().all(|x| *x == 0.5), "the step changed the skipped parameter {}: {:?} {:?}", k, v, g);
        }
    }
    rep.add("parameters", want.len() as u64);
    rep.add("skipped_parameters", (all.len() - want.len()) as u64);
    // moving
    if r.chance(0.5) {
        let mut m: Box<M> = build(w.dev, r, true);
        let mut all = vec![];
        m.all(true, &mut all);
        let dev = if r.chance(0.5) { w.dev } else { w.other };
        if let Err(e) = catch(|| m.move_to_device(dev)) {
            return Err(format!("moving {} parameters panicked: {}", all.len(), e));
        }
        for (k, (inc, p)) in all.iter().enumerate() {
            let p = unsafe { &**p };
            for t in [&p.value, &p.gradient] {
                let on = t.valid();
                ensure!(on == *inc, "parameter {} ({}) is {} after moving", k, if *inc { "owned" } else { "skipped" }, if on { "on a device" } else { "on no device" });
                ensure!(!on || t.device() == dev, "parameter {} is on the wrong device", k);
            }
        }
        rep.count("moved");
    }
    rep.distinct(&(std::any::type_name::<M>(), all.iter().map(|x| x.0).collect::<Vec<_>>(), values.len()));
    rep.sample(|| format!("{}: {} parameters, {} skipped", std::any::type_name::<M>(), want.len(), all.len() - want.len()));
    Ok(())
}

include!(env!("C16_RS"));

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("models", cfg.q(60_000, 1_500_000), 15., w, |w, r, rep| {
        let (name, f) = r.pick(MODELS);
        rep.max("model_types", MODELS.len() as u64);
        f(w, r, rep).map_err(|m| format!("{}: {}", name, m))
    });
    cfg.finish(
        "random model structs (generated with an independent list of their parameters: nested models, vectors of parameters and models, boxes, type and constant parameters in any order, where clauses, further lifetimes, skipped fields of all types) with random vector lengths: both enumerations must list the owned parameters' addresses in order, configuring, updating and moving must touch exactly these",
        &[],
    )
}
