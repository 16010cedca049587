//! Complete workloads on a device, each with a digest of everything it computed.
use crate::gen::{self, Vals};
use crate::ops::*;
use crate::optm;
use crate::prog::*;
use crate::refm::*;
use crate::util::*;
use crate::world::World;
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::{Node, Parameter, Tensor};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Work {
    Lazy,
    Eager,
    Training,
    World,
    Saving,
    Hostile,
    Random,
    Wide,
}
pub const WORKS: &[Work] = &[Work::Lazy, Work::Eager, Work::Training, Work::World, Work::Saving, Work::Hostile, Work::Random, Work::Wide];

#[derive(Default)]
pub struct Digest(pub u64);
impl Digest {
    pub fn add(&mut self, v: &[f32]) {
        for x in v {
            // all NaNs are one value
            let b = if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() };
            self.n(b as u64);
        }
    }
    pub fn n(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
}

/// Values of all variables, gradients of all parameters.
pub fn run_lazy(dev: Dev, p: &Prog, roots: &[usize], d: &mut Digest) {
    let nl = p.leaves.len();
    let mut ps: Vec<Option<Box<Parameter<'static>>>> = p
        .leaves
        .iter()
        .map(|l| match l.kind {
            LeafKind::Param => Some(Box::new(Parameter::new(tensor(dev, l.s, &l.data), tensor(dev, l.s, &vec![0.; l.s.n()])))),
            _ => None,
        })
        .collect();
    let inputs: Vec<Tensor<'static>> = (0..nl).map(|k| p.leaf_tensor(dev, k)).collect();
    {
        let mut ptr: Vec<*mut Parameter<'static>> = ps.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| &mut **p as *mut _)).collect();
        let nodes = p.nodes(|k| match p.leaves[k].kind {
            LeafKind::Param => Node::from(unsafe { &mut *ptr[k] }),
            LeafKind::Input => Node::from(&inputs[k]),
            LeafKind::Owned => Node::from(p.leaf_tensor(dev, k)),
        });
        for &r in roots {
            nodes[r].backward();
            let v = nodes[r].to_vec();
            d.add(&v);
        }
    }
    for q in ps.iter().flatten() {
        d.add(&q.gradient.to_vec());
        d.add(&q.value.to_vec());
    }
}

pub fn run_eager(dev: Dev, p: &Prog, d: &mut Digest) {
    let ts = p.tensors(|k| p.leaf_tensor(dev, k));
    for t in &ts {
        d.add(&t.to_vec());
    }
}

/// One call that may be refused; eager and lazy.
pub fn hostile(dev: Dev, other: Dev, r: &mut Rng, d: &mut Digest, max: u64) {
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().collect();
    let kind = *r.pick(&all);
    let (mut op, mut shapes) = gen::op(r, kind, max);
    for _ in 0..r.range(0, 3) {
        if r.chance(0.5) {
            gen::mutate_args(r, &mut op);
        } else {
            let k = r.us(shapes.len());
            shapes[k] = gen::mutate_shape(r, shapes[k]);
        }
    }
    // nothing that would only take memory
    let out: u64 = op.infer(&shapes).map_or(0, |w| w.iter().map(|s| s.size()).sum());
    if out > 50_000 || shapes.iter().any(|s| s.size() > 50_000) {
        return;
    }
    let random = matches!(op, Op::Dropout(p, true) | Op::DropoutDim(_, p, true) if p < 1.);
    let dom = gen::domain(&op, &shapes);
    let data = gen::values(r, &dom, &shapes, Vals::Plain);
    let wrong = if shapes.len() > 1 && r.chance(0.1) { r.us(shapes.len()) } else { 99 };
    let empty = if r.chance(0.05) { r.us(shapes.len()) } else { 99 };
    let xs: Vec<Tensor<'static>> = shapes
        .iter()
        .zip(&data)
        .enumerate()
        .map(|(i, (s, v))| {
            if i == empty {
                dev.new_tensor(s.real())
            } else {
                tensor(if i == wrong { other } else { dev }, *s, v)
            }
        })
        .collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let style = r.below(64) as u32;
    let got = catch(|| eager(&op, &refs, style).iter().map(|y| y.to_vec()).collect::<Vec<_>>());
    if let Ok(y) = &got {
        d.n(y.len() as u64);
        if !random {
            y.iter().for_each(|v| d.add(v));
        }
    } else {
        d.n(77);
    }
    if r.chance(0.2) {
        // through views, reading the same buffers
        if empty == 99 {
            let got = catch(|| eager_views(&op, dev, &refs, style).iter().map(|y| y.to_vec()).collect::<Vec<_>>());
            d.n(got.is_ok() as u64);
        }
    }
    if op.lazy() {
        let got = catch(|| {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let rn: Vec<&Node> = ns.iter().collect();
            let ys = lazy(&op, &rn, style % 4);
            let v: Vec<Vec<f32>> = ys.iter().map(|y| y.to_vec()).collect();
            let k = ys.len() - 1;
            ys[k].backward();
            let g: Vec<Vec<f32>> = ns.iter().map(|n| n.inner_gradient().to_vec()).collect();
            (v, g)
        });
        match &got {
            Ok((v, g)) => {
                d.n(v.len() as u64);
                if !random {
                    v.iter().for_each(|v| d.add(v));
                    g.iter().for_each(|v| d.add(v));
                }
            }
            Err(_) => d.n(78),
        }
    }
}

pub fn program(r: &mut Rng, max: u64) -> (Prog, Vec<usize>) {
    let class = if r.chance(0.5) { Class::Int } else { Class::Smooth };
    let mut o = Opts::new(r.range(1, 10) as usize);
    o.max = max;
    let p = Prog::generate(r, class, &o);
    let nv = p.vars.len();
    let roots: Vec<usize> = (0..r.range(1, 3)).map(|_| nv - 1 - r.us(nv.min(3))).collect();
    (p, roots)
}

fn saving(dev: Dev, other: Dev, r: &mut Rng, d: &mut Digest) -> Result<(), String> {
    let s = gen::shape(r, 60).with_b(1);
    let v: Vec<f32> = (0..s.n()).map(|_| r.uni(-9., 9.) as f32).collect();
    let mut p = Parameter::new(tensor(dev, s, &v), tensor(dev, s, &vec![0.5; s.n()]));
    p.add_stat("m", s.real());
    let json = serde_json::to_string(&p).map_err(|e| e.to_string())?;
    let mut q: Parameter<'static> = serde_json::from_str(&json).map_err(|e| e.to_string())?;
    q.move_to_device(if r.chance(0.5) { dev } else { other });
    d.add(&q.value.to_vec());
    let b = bincode::serialize(&q.value).map_err(|e| e.to_string())?;
    let k = r.us(b.len() + 1);
    let mut broken = b.clone();
    if k < b.len() {
        broken[k] ^= 1 << r.us(8);
    } else {
        broken.truncate(r.us(b.len()));
    }
    // lengths beyond the data are refused by the format
    match bincode::deserialize::<Tensor>(&broken) {
        Ok(mut t) => {
            if t.shape().size() < 100_000 {
                t.move_to_device(dev);
                d.add(&t.to_vec());
            }
        }
        Err(_) => d.n(5),
    }
    let mut t: Tensor<'static> = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    t.move_to_device(dev);
    d.add(&t.to_vec());
    Ok(())
}

fn random(dev: Dev, r: &mut Rng) -> Result<(), String> {
    use prima_undine::initializers as I;
    let s = gen::shape(r, 100);
    let s1 = s.with_b(1);
    let n = match r.below(6) {
        0 => dev.random_bernoulli(s.real(), 0.5).to_vec(),
        1 => dev.random_uniform(s.real(), -1., 1.).to_vec(),
        2 => dev.random_normal(s.real(), 0., 1.).to_vec(),
        3 => {
            let _ = catch(|| dev.random_normal(s.real(), 0., -1.));
            let _ = catch(|| dev.random_uniform(s.real(), 1., -1.));
            let _ = catch(|| dev.random_bernoulli(s.real(), 2.));
            dev.random_uniform(s.real(), -1., 1.).to_vec()
        }
        4 => dev.new_parameter(s1.real(), &I::Uniform::new(-1., 1.)).value.to_vec(),
        _ => {
            dev.random_normal(s.real(), 1., 0.5).to_vec()
        }
    };
    if n.iter().any(|x| !(x.abs() < 9.)) {
        return Err(format!("random values {:?}", n));
    }
    Ok(())
}

/// One operation on tensors of very many samples or elements, eager and lazy with its gradients.
fn wide(dev: Dev, r: &mut Rng, d: &mut Digest, max: u64) -> Result<(), String> {
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().collect();
    let kind = *r.pick(&all);
    let (op, shapes) = if r.chance(0.5) {
        let m = gen::tail(r, max, max * 200);
        gen::op(r, kind, m)
    } else {
        let (op, mut shapes) = gen::op(r, kind, 12);
        let b = gen::tail(r, 13, max * 20) as u32;
        if shapes.iter().all(|s| s.b == 1) {
            shapes[0].b = b;
        } else {
            shapes.iter_mut().filter(|s| s.b > 1).for_each(|s| s.b = b);
        }
        (op, shapes)
    };
    let fits = op.infer(&shapes).map_or(false, |w| w.iter().map(|s| s.size()).sum::<u64>() < 100_000);
    if !fits || shapes.iter().any(|s| s.size() > 100_000) || matches!(op, Op::Dropout(p, true) | Op::DropoutDim(_, p, true) if p < 1.) {
        return Ok(());
    }
    let dom = gen::domain(&op, &shapes);
    let data = gen::values(r, &dom, &shapes, Vals::Plain);
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, v)| tensor(dev, *s, v)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let style = r.below(64) as u32;
    eager(&op, &refs, style).iter().for_each(|y| d.add(&y.to_vec()));
    if op.lazy() {
        let ns: Vec<Node> = xs.iter().map(Node::from).collect();
        let rn: Vec<&Node> = ns.iter().collect();
        let ys = lazy(&op, &rn, style % 4);
        ys[0].backward();
        d.add(&ys[0].to_vec());
        // operands that are not used get no gradient
        ns.iter().filter(|n| n.inner_gradient().valid()).for_each(|n| d.add(&n.inner_gradient().to_vec()));
    }
    Ok(())
}

/// Runs one workload; the digest depends on `r` only.
pub fn work(w: Work, dev: Dev, other: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<u64, String> {
    let mut d = Digest::default();
    match w {
        Work::Lazy => {
            let (p, roots) = program(r, max);
            run_lazy(dev, &p, &roots, &mut d);
        }
        Work::Eager => {
            let (p, _) = program(r, max);
            run_eager(dev, &p, &mut d);
        }
        Work::Training => {
            let mut quiet = Rep::default();
            let f = optm::Features { extra: true, steps: 6, elements: max / 4 + 1 };
            optm::history(dev, &f, r, &mut quiet)?;
            d.n(r.next());
        }
        Work::World => {
            let exact = r.chance(0.5);
            let mut world = World::new(&[dev, other], exact, max / 2 + 1);
            for _ in 0..r.range(5, 30) {
                world.step(r, &mut Rep::default())?;
            }
            d.n(r.next());
        }
        Work::Saving => saving(dev, other, r, &mut d)?,
        Work::Hostile => {
            for _ in 0..4 {
                hostile(dev, other, r, &mut d, max)
            }
        }
        Work::Random => random(dev, r)?,
        Work::Wide => wide(dev, r, &mut d, max)?,
    }
    rep.count(&format!("work_{:?}", w));
    Ok(d.0)
}

pub fn any(r: &mut Rng) -> Work {
    *r.pick(&[Work::Lazy, Work::Lazy, Work::Lazy, Work::Eager, Work::Eager, Work::Training, Work::World, Work::World, Work::Saving, Work::Hostile, Work::Hostile, Work::Random, Work::Wide])
}

pub fn shape_size(s: &Sh) -> u32 {
    s.size() as u32
}
