//! C14: saving and reloading.
use hcore::gen;
use hcore::ops::*;
use hcore::optm::{make, Kind, Opt};
use hcore::own;
use hcore::prog::Fresh;
use hcore::refm::*;
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};
use prima_undine::{initializers as I, Model, Node, Parameter, Shape, Tensor};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Json,
    Pretty,
    Value,
    Bincode,
}
const FORMATS: &[Format] = &[Format::Json, Format::Pretty, Format::Value, Format::Bincode];
impl Format {
    fn save<T: Serialize>(self, x: &T) -> Result<Vec<u8>, String> {
        match self {
            Format::Json => serde_json::to_vec(x).map_err(|e| e.to_string()),
            Format::Pretty => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()),
            Format::Value => serde_json::to_value(x).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
            Format::Bincode => bincode::serialize(x).map_err(|e| e.to_string()),
        }
    }
    fn load<T: DeserializeOwned>(self, b: &[u8]) -> Result<T, String> {
        match self {
            Format::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
            Format::Value => serde_json::from_slice::<serde_json::Value>(b).and_then(serde_json::from_value).map_err(|e| e.to_string()),
            _ => serde_json::from_slice(b).map_err(|e| e.to_string()),
        }
    }
    /// Whether the format itself keeps these numbers.
    fn keeps(self, v: &[f32]) -> bool {
        let b = self.save(&v).unwrap();
        match self.load::<Vec<f32>>(&b) {
            Ok(w) => check::same_bits(v, &w),
            _ => false,
        }
    }
    fn round<T: Serialize, U: DeserializeOwned>(self, x: &T) -> Result<U, String> {
        match catch(|| self.save(x).map_err(|e| format!("saving failed: {}", e)).and_then(|b| self.load(&b).map_err(|e| format!("loading {} failed: {}", String::from_utf8_lossy(&b), e)))) {
            Ok(r) => r,
            Err(m) => Err(format!("panic: {}", m)),
        }
    }
}

fn finite(r: &mut Rng) -> f32 {
    loop {
        let x = match r.below(8) {
            0 => *r.pick(&[0f32, -0., 1., -1., f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, -1e-45, 16777217., 0.1, 1. / 3.]),
            1 | 2 => f32::from_bits(r.next() as u32),
            3 => r.range(-100, 100) as f32,
            _ => r.uni(-2., 2.) as f32,
        };
        if x.is_finite() {
            return x;
        }
    }
}
/// Numbers the format keeps.
fn numbers(r: &mut Rng, f: Format, n: usize, rep: &mut Rep) -> Vec<f32> {
    let mut v: Vec<f32> = (0..n).map(|_| finite(r)).collect();
    if !f.keeps(&v) {
        for x in v.iter_mut() {
            if !f.keeps(&[*x]) {
                rep.count("numbers_the_format_changes");
                *x = 1.5;
            }
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
    Same,
    Other,
    OwnBackend,
}

struct W {
    dev: Dev,
    other: Dev,
    own: Dev,
}
fn w() -> W {
    W { dev: naive(), other: naive(), own: leak(own::device(&[]).0) }
}
impl W {
    fn at(&self, p: Place) -> Dev {
        match p {
            Place::Same => self.dev,
            Place::Other => self.other,
            Place::OwnBackend => self.own,
        }
    }
}
fn place(r: &mut Rng) -> Place {
    *r.pick(&[Place::Same, Place::Other, Place::OwnBackend])
}

fn tensors(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let f = *r.pick(FORMATS);
    let max = if r.chance(0.02) { 20_000 } else { 60 };
    let s = gen::shape(r, max);
    let mut s = if s.b == 1 && r.chance(0.3) { gen::shrink(r, s.with_b(3), 20_000) } else { s };
    // the shape alone
    let sh: Shape = f.round(&s.real()).map_err(|m| format!("{:?} shape {:?}: {}", f, s, m))?;
    ensure!(sh == s.real() && Sh::of(sh) == s && sh.batch() == s.b, "{:?}: shape {:?} reloaded as {:?}", f, s, sh);
    let v = numbers(r, f, s.n(), rep);
    let src: Dev = *r.pick(&[w.dev, w.own]);
    let t = tensor(src, s, &v);
    let kind = r.us(4);
    let mut cur: Tensor<'static> = match kind {
        // a view
        0 => {
            let t2: &'static Tensor<'static> = unsafe { &*(&t as *const _) };
            let mut view = src.new_tensor(s.real());
            drop(std::mem::replace(&mut view, Tensor::from(t2)));
            if r.chance(0.5) {
                // the same elements in another arrangement
                s = gen::same_size(r, s.size());
                view.update_shape(s.real());
                rep.count("reshaped_views");
            }
            f.round(&view).map_err(|m| format!("{:?} view {:?}: {}", f, s, m))?
        }
        // the value of a node, not evaluated before
        1 => {
            let n = Node::from(&t) + 0.;
            n.forward();
            let r = f.round(&*n.inner_value());
            r.map_err(|m| format!("{:?} node value {:?}: {}", f, s, m))?
        }
        _ => f.round(&t).map_err(|m| format!("{:?} tensor {:?}: {}", f, s, m))?,
    };
    // adding zero changes the sign of a negative zero only
    let same = |a: &[f32]| {
        if kind == 1 {
            a.len() == v.len() && a.iter().zip(&v).all(|(x, y)| x == y)
        } else {
            check::same_bits(a, &v)
        }
    };
    ensure!(check::same_bits(&t.to_vec(), &v), "{:?}: saving changed the tensor {:?} {:?}", f, s, v);
    let mut chain = vec![(f, None)];
    for _ in 0..r.range(1, 4) {
        // saved again before or after it was moved
        if r.chance(0.4) {
            let g = *r.pick(FORMATS);
            if g == Format::Bincode || g == f || g.keeps(&v) {
                cur = g.round(&cur).map_err(|m| format!("{:?} reloaded tensor {:?}: {}", g, s, m))?;
                chain.push((g, None));
            }
        }
        let p = place(r);
        cur.move_to_device(w.at(p));
        chain.push((f, Some(p)));
        ensure!(cur.device() == w.at(p), "the tensor {:?} is on another device", s);
        ensure!(cur.shape() == s.real() && cur.shape().batch() == s.b, "{:?}: tensor of shape {:?} reloaded as {:?}", chain, s, cur.shape());
        let got = cur.to_vec();
        ensure!(same(&got), "{:?}: tensor {:?} {:?} reloaded as {:?}", chain, s, v, got);
        // usable
        let d = (&cur - &cur).to_vec();
        ensure!(d.iter().all(|x| *x == 0.), "{:?}: the reloaded tensor {:?} is not usable", chain, s);
        let g = *r.pick(FORMATS);
        let g = if g.keeps(&v) { g } else { Format::Bincode };
        cur = g.round(&cur).map_err(|m| format!("{:?} moved tensor {:?}: {}", g, s, m))?;
        chain.push((g, None));
    }
    rep.count(&format!("format_{:?}", f));
    rep.add("values", v.len() as u64);
    rep.distinct(&(s, v.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), format!("{:?}", chain)));
    rep.sample(|| format!("{:?} {:?} {:?}", s, chain, v));
    Ok(())
}

/// Everything a parameter holds, sorted.
fn content(p: &Parameter<'static>) -> Vec<(String, Sh, Vec<u32>)> {
    let bits = |t: &Tensor| t.to_vec().iter().map(|x| x.to_bits()).collect::<Vec<u32>>();
    let mut c = vec![
        ("=value".to_string(), Sh::of(p.value.shape()), bits(&p.value)),
        ("=gradient".to_string(), Sh::of(p.gradient.shape()), bits(&p.gradient)),
    ];
    for (k, t) in &p.stats {
        let t = t.borrow();
        c.push((k.clone(), Sh::of(t.shape()), bits(&t)));
    }
    c.sort_by(|a, b| a.0.cmp(&b.0));
    c
}

fn random_parameter(w: &W, r: &mut Rng, f: Format, rep: &mut Rep) -> Parameter<'static> {
    let s = gen::shape(r, 40).with_b(1);
    let mut p: Parameter<'static> = w.dev.new_parameter(s.real(), &I::Constant::new(0.));
    let v = numbers(r, f, s.n(), rep);
    w.dev.reset_tensor_by_slice(&mut p.value, &v);
    let v = numbers(r, f, s.n(), rep);
    w.dev.reset_tensor_by_slice(&mut p.gradient, &v);
    let names = ["Adam.m1", "Adam.m2", "MomentumSGD.m", "", "a b", "\u{3b2} \"quoted\"\n", "value", "x.y.z"];
    for _ in 0..r.us(5) {
        let n = *r.pick(&names);
        if !p.has_stat(n) {
            let s2 = if r.chance(0.8) { s } else { gen::shape(r, 10) };
            p.add_stat(n, s2.real());
            let v = numbers(r, f, s2.n(), rep);
            let mut t = p.stats[n].borrow_mut();
            w.dev.reset_tensor_by_slice(&mut t, &v);
        }
    }
    p
}

#[derive(Model, Serialize, Deserialize)]
struct Leafy<'dev> {
    w: Parameter<'dev>,
    bs: Vec<Parameter<'dev>>,
}
#[derive(Model, Serialize, Deserialize)]
struct Net<'dev> {
    head: Parameter<'dev>,
    inner: Leafy<'dev>,
    layers: Vec<Leafy<'dev>>,
    #[parameter(skip)]
    note: String,
    #[parameter(skip)]
    frozen: Parameter<'dev>,
}

fn parameters(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let f = *r.pick(FORMATS);
    let p = random_parameter(w, r, f, rep);
    let before = content(&p);
    let mut q: Parameter<'static> = f.round(&p).map_err(|m| format!("{:?} parameter {:?}: {}", f, before, m))?;
    ensure!(content(&p) == before, "{:?}: saving changed the parameter {:?}", f, before);
    let at = place(r);
    for i in 0..2 {
        q.move_to_device(w.at(at));
        let after = content(&q);
        ensure!(after == before, "{:?}: parameter {:?} reloaded as {:?}", f, before, after);
        ensure!(q.value.device() == w.at(at) && q.gradient.device() == w.at(at), "a part of the parameter is on another device");
        ensure!(q.stats.values().all(|t| t.borrow().device() == w.at(at)), "a statistic is on another device");
        if i == 0 {
            let g = *r.pick(&[f, Format::Bincode]);
            q = g.round(&q).map_err(|m| format!("{:?} reloaded parameter: {}", g, m))?;
        }
    }
    // models
    let n = |k: u64, r: &mut Rng| r.below(k) as usize;
    let leafy = |r: &mut Rng, rep: &mut Rep| -> Leafy<'static> {
        let k = n(3, r);
        Leafy { w: random_parameter(w, r, f, rep), bs: (0..k).map(|_| random_parameter(w, r, f, rep)).collect() }
    };
    if r.chance(0.4) {
        let head = random_parameter(w, r, f, rep);
        let inner = leafy(r, rep);
        let k = n(3, r);
        let layers = (0..k).map(|_| leafy(r, rep)).collect();
        let frozen = random_parameter(w, r, f, rep);
        let m = Net { head, inner, layers, note: "kept".to_string(), frozen };
        let before: Vec<_> = m.parameters().iter().map(|p| content(p)).collect();
        let fb = content(&m.frozen);
        let mut q: Net<'static> = f.round(&m).map_err(|m| format!("{:?} model {:?}: {}", f, before, m))?;
        ensure!(m.parameters().iter().map(|p| content(p)).collect::<Vec<_>>() == before, "{:?}: saving changed the model", f);
        q.move_to_device(w.at(at));
        // skipped parameters are not moved by the model
        q.frozen.move_to_device(w.at(at));
        let after: Vec<_> = q.parameters().iter().map(|p| content(p)).collect();
        ensure!(after == before, "{:?}: model {:?} reloaded as {:?}", f, before, after);
        ensure!(content(&q.frozen) == fb && q.note == "kept", "{:?}: skipped fields {:?} reloaded as {:?}", f, fb, content(&q.frozen));
        rep.count("models");
    }
    rep.count(&format!("parameter_format_{:?}", f));
    rep.distinct(&before);
    rep.sample(|| format!("{:?} {:?}", f, before));
    Ok(())
}

struct Task {
    shapes: Vec<Sh>,
    init: Vec<Vec<f32>>,
    target: Vec<Vec<f32>>,
    kind: Kind,
    h: [f32; 4],
    settings: [f32; 3],
}
impl Task {
    fn opt(&self) -> Opt {
        let mut o = hcore::optm::make_as(self.kind, self.h);
        let b = o.o.base();
        b.set_weight_decay(self.settings[0]);
        b.set_gradient_clipping(self.settings[1]);
        b.set_learning_rate_scaling(self.settings[2]);
        o
    }
    /// One training step.
    fn step(&self, dev: Dev, o: &mut Opt, ps: &mut Vec<Parameter<'static>>, step: usize) -> Vec<f32> {
        let mut out = vec![];
        {
            let mut total: Option<Node> = None;
            for (k, p) in ps.iter_mut().enumerate() {
                let s = self.shapes[k];
                let x = Node::from(p);
                let t = Node::from(tensor(dev, s, &self.target[k]));
                let d = (&x - &t) * (1. + 0.1 * (step % 3) as f32);
                let l = (&d * &d).flatten().sum(0);
                total = Some(match total {
                    None => l,
                    Some(q) => q.tanh() + l,
                });
            }
            let total = total.unwrap();
            total.backward();
            out.extend(total.to_vec());
        }
        o.o.update_vec(ps);
        out
    }
}

/// Training with and without interruptions.
fn resume(_: &mut (), r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = r.range(1, 4) as usize;
    let shapes: Vec<Sh> = (0..n).map(|_| gen::shape(r, 12).with_b(1)).collect();
    let vals = |r: &mut Rng| -> Vec<Vec<f32>> { shapes.iter().map(|s| (0..s.n()).map(|_| r.uni(-1., 1.) as f32).collect()).collect() };
    let o = make(r);
    let mut h = o.h;
    h[0] = h[0].min(0.1);
    let t = Task {
        init: vals(r),
        target: vals(r),
        kind: o.kind,
        h,
        settings: [*r.pick(&[0f32, 0.01]), *r.pick(&[0f32, 0.3]), *r.pick(&[1f32, 0.5])],
        shapes,
    };
    let steps = r.range(2, 14) as usize;
    let fresh = |dev: Dev| -> Vec<Parameter<'static>> {
        t.shapes
            .iter()
            .zip(&t.init)
            .map(|(s, v)| {
                let mut p: Parameter<'static> = dev.new_parameter(s.real(), &I::Constant::new(0.));
                dev.reset_tensor_by_slice(&mut p.value, v);
                p
            })
            .collect()
    };
    let what = format!("{:?}{:?} settings {:?} shapes {:?} steps {}", t.kind, t.h, t.settings, t.shapes, steps);
    // never interrupted
    let mut losses = vec![];
    let mut finals = vec![];
    {
        let dev = Fresh::new();
        let mut ps = fresh(dev.0);
        let mut o = t.opt();
        o.o.configure_vec(&mut ps);
        for i in 0..steps {
            losses.extend(t.step(dev.0, &mut o, &mut ps, i));
        }
        finals.extend(ps.iter().map(content));
    }
    // interrupted
    let mut devs = vec![Fresh::new()];
    let mut ps = fresh(devs[0].0);
    let mut o = t.opt();
    o.o.configure_vec(&mut ps);
    let mut got = vec![];
    let mut cuts = vec![];
    for i in 0..steps {
        if r.chance(0.35) {
            let f = *r.pick(FORMATS);
            let all: Vec<Vec<f32>> = ps.iter().flat_map(content).map(|x| x.2.iter().map(|&b| f32::from_bits(b)).collect()).collect();
            let f = if all.iter().all(|v| v.iter().all(|x| x.is_finite()) && f.keeps(v)) { f } else { Format::Bincode };
            // a gradient that was not used up yet is saved, too
            let bytes = catch(|| f.save(&ps)).unwrap_or_else(Err).map_err(|m| format!("{}: saving before step {}: {}", what, i, m))?;
            let mut back: Vec<Parameter<'static>> = catch(|| f.load(&bytes)).unwrap_or_else(Err).map_err(|m| format!("{}: loading before step {}: {}", what, i, m))?;
            if r.chance(0.7) {
                devs.push(Fresh::new());
            }
            let dev = devs.last().unwrap().0;
            back.move_to_device(dev);
            ps = back;
            let e = *o.o.base().epoch();
            if r.chance(0.7) {
                o = t.opt();
                *o.o.base().epoch() = e;
            }
            if r.chance(0.6) {
                o.o.configure_vec(&mut ps);
            }
            cuts.push((i, f));
            rep.count("interruptions");
        }
        let dev = devs.last().unwrap().0;
        got.extend(t.step(dev, &mut o, &mut ps, i));
    }
    ensure!(check::same_bits(&got, &losses), "{} interrupted at {:?}: losses {:?}, without interruption {:?}", what, cuts, got, losses);
    let fin: Vec<_> = ps.iter().map(content).collect();
    ensure!(fin == finals, "{} interrupted at {:?}: {:?}, without interruption {:?}", what, cuts, fin, finals);
    drop(ps);
    let _ = RefCell::new(());
    rep.add("steps", steps as u64);
    rep.distinct(&(what.clone(), cuts.len(), losses.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    rep.sample(|| format!("{} interrupted at {:?}", what, cuts));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("tensors", cfg.q(60_000, 2_000_000), 12., w, |w, r, rep| tensors(w, r, rep));
    cfg.stage("parameters", cfg.q(40_000, 1_000_000), 12., w, |w, r, rep| parameters(w, r, rep));
    cfg.stage("resume", cfg.q(20_000, 600_000), 12., || (), |s, r, rep| resume(s, r, rep));
    cfg.finish(
        "shapes, tensors (plain, views, node values, reloaded and not moved yet), parameters with random gradients and named statistics, and nested models saved as JSON (compact, pretty, through a value tree) and bincode and reloaded, in chains of several rounds, onto the same device, another one or one with an independent backend; all finite bit patterns; contents compared bitwise, the saved object again afterwards; training interrupted at random steps (save, load, new device, new optimizer with the same step counter) compared bitwise with the uninterrupted run",
        &["numbers that plain serde_json does not keep are replaced before they are used with JSON"],
    )
}
