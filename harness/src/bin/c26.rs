//! C26: what reaches a backend.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::own::{self, Own};
use hcore::prog::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions, RandomDeviceFunctions};
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine_contrib::functions::ContribFunctions;
use prima_undine::{initializers as I, Device, Initializer, Node, Optimizer, OptimizerBase, Parameter, Tensor};
use std::sync::Arc;

struct W {
    dev: Dev,
    own: Arc<Own>,
    other: Dev,
    other_own: Arc<Own>,
    naive: Dev,
}
fn w() -> W {
    let (d, own) = own::device(&[]);
    let (e, other_own) = own::device(&[]);
    W { dev: leak(d), own, other: leak(e), other_own, naive: naive() }
}
impl W {
    fn verdict(&self) -> Result<(), String> {
        self.own.verdict()?;
        self.other_own.verdict()
    }
}

fn programs(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut o = Opts::new(r.range(1, 10) as usize);
    o.params = 0.8;
    let class = if r.chance(0.3) { Class::Int } else { Class::Smooth };
    // ties have no defined choice of the gradient
    o.skip = if class == Class::Int { &["Max", "Min", "Abs", "Relu", "Prelu"] } else { &[] };
    let p = Prog::generate(r, class, &o);
    let nv = p.vars.len();
    let nl = p.leaves.len();
    let dev = w.dev;
    {
        let mut params: Vec<Option<Parameter<'static>>> = p
            .leaves
            .iter()
            .map(|l| if l.kind == LeafKind::Param { Some(Parameter::new(tensor(dev, l.s, &l.data), tensor(dev, l.s, &vec![0.; l.s.n()]))) } else { None })
            .collect();
        let inputs: Vec<Tensor<'static>> = (0..nl).map(|k| p.leaf_tensor(dev, k)).collect();
        let root = nv - 1;
        {
            let mut ptrs: Vec<*mut Parameter<'static>> = params.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| p as *mut _)).collect();
            let nodes = p.nodes(|k| match p.leaves[k].kind {
                LeafKind::Param => Node::from(unsafe { &mut *ptrs[k] }),
                LeafKind::Input => Node::from(&inputs[k]),
                LeafKind::Owned => Node::from(p.leaf_tensor(dev, k)),
            });
            for _ in 0..r.range(0, 3) {
                let v = r.us(nv);
                check::close(&nodes[v].to_vec(), &val(&p, v)).map_err(|m| format!("lazy v{}: {}; {:?}", v, m, p))?;
            }
            nodes[root].backward();
            w.verdict().map_err(|m| format!("{}; {:?}", m, p))?;
            check::close(&nodes[root].to_vec(), &val(&p, root)).map_err(|m| format!("lazy v{}: {}; {:?}", root, m, p))?;
        }
        for k in 0..nl {
            if let Some(q) = &params[k] {
                let (g, a) = p.gradient(k, root);
                let tol: Vec<f64> = g.iter().zip(&a).map(|(g, a)| 4e-4 * a + 1e-5 * g.abs() + 1e-5).collect();
                check::near(&q.gradient.to_vec(), &g, &tol).map_err(|m| format!("gradient of v{}: {}; {:?}", p.leaves[k].var, m, p))?;
            }
        }
        let ts = p.tensors(|k| p.leaf_tensor(dev, k));
        for v in 0..nv {
            check::close(&ts[v].to_vec(), &val(&p, v)).map_err(|m| format!("eager v{}: {}; {:?}", v, m, p))?;
        }
    }
    w.verdict().map_err(|m| format!("{}; {:?}", m, p))?;
    rep.distinct(&p.signature());
    rep.sample(|| format!("{:?}", p));
    Ok(())
}
fn val(p: &Prog, v: usize) -> RT<Ev> {
    RT { s: p.vars[v], x: p.val[v].x.iter().map(|e| Ev { e: e.e.e + 1e-9 * e.e.v.abs(), ..e.e }).collect() }
}

/// Single calls, valid and invalid, in all styles.
fn calls(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().collect();
    let kind = *r.pick(&all);
    let max = gen::limit(r, 60, 5_000, 0.01);
    let (mut op, mut shapes) = gen::op(r, kind, max);
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
        if r.chance(0.5) {
            gen::mutate_args(r, &mut op);
        } else {
            let k = r.us(shapes.len());
            shapes[k] = gen::mutate_shape(r, shapes[k]);
        }
    }
    let want = op.infer(&shapes);
    if let Some(w) = &want {
        if w.iter().map(|s| s.size()).sum::<u64>() > 5_000 {
            return Ok(());
        }
    }
    let random = matches!(op, Op::Dropout(p, true) | Op::DropoutDim(_, p, true) if p < 1.);
    let data = gen::values(r, &gen::domain(&op, &shapes), &shapes, Vals::Plain);
    let what = |m: &str| format!("{} {:?} on {:?} inputs {:?}", m, op, shapes, data);
    let style = r.below(64) as u32;
    let reference: Option<Vec<RT<Ev>>> = if want.is_some() && !random {
        let rt: Vec<RT<Ev>> = shapes.iter().zip(&data).map(|(s, d)| RT::from_f32(*s, d)).collect();
        Some(op.eval(&rt.iter().collect::<Vec<_>>()))
    } else {
        None
    };
    let judge = |m: &str, got: Result<Vec<Vec<f32>>, String>| -> Result<(), String> {
        w.verdict().map_err(|e| format!("{}: {}", what(m), e))?;
        match (got, &reference) {
            (Ok(y), Some(e)) => {
                for (y, e) in y.iter().zip(e) {
                    check::close(y, e).map_err(|q| format!("{}: {}", what(m), q))?;
                }
                Ok(())
            }
            (Err(q), Some(_)) => Err(format!("{} panicked: {}", what(m), q)),
            (Ok(_), None) => {
                ensure!(random || want.is_some(), "{} was accepted", what(m));
                Ok(())
            }
            _ => Ok(()),
        }
    };
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(w.dev, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    judge("eager", catch(|| eager(&op, &refs, style).iter().map(|y| y.to_vec()).collect()))?;
    if r.chance(0.3) {
        judge("views", catch(|| eager_views(&op, w.dev, &xs.iter().collect::<Vec<_>>(), style).iter().map(|y| y.to_vec()).collect()))?;
    }
    if op.lazy() {
        let back = r.chance(0.3);
        judge(
            "lazy",
            catch(|| {
                let ns: Vec<Node> = xs.iter().map(Node::from).collect();
                let rn: Vec<&Node> = ns.iter().collect();
                let ys = lazy(&op, &rn, style % 4);
                let v = ys.iter().map(|y| y.to_vec()).collect();
                if back {
                    let k = ys.len() - 1;
                    ys[k].backward();
                    for n in &ns {
                        if n.inner_gradient().valid() {
                            n.inner_gradient().to_vec();
                        }
                    }
                }
                v
            }),
        )?;
        if back {
            rep.count("backward_calls");
        }
    }
    if r.chance(0.3) {
        let d = gen::any_dim(r);
        for q in 0..3 {
            let t = &xs[0];
            let f = |x: &Tensor| match q {
                0 => x.argmax(d),
                1 => x.argmin(d),
                _ => x.argsort(d),
            };
            let a = catch(|| f(t));
            w.verdict().map_err(|e| format!("index query {} of {:?} along {}: {}", q, shapes[0], d, e))?;
            let n = tensor(w.naive, shapes[0], &data[0]);
            let b = catch(|| f(&n));
            ensure!(a.is_ok() == b.is_ok(), "index query {} of {:?} along {}: {:?}, built in {:?}", q, shapes[0], d, a, b);
            if q < 2 {
                if let (Ok(a), Ok(b)) = (a, b) {
                    ensure!(a == b, "index query {} of {:?} {:?} along {}: {:?}, built in {:?}", q, shapes[0], data[0], d, a, b);
                }
            }
        }
    }
    // the destination of in-place operations
    if r.chance(0.5) {
        let mut y = tensor(w.dev, shapes[0], &data[0]);
        let mut z = tensor(w.naive, shapes[0], &data[0]);
        let s2 = if r.chance(0.6) { shapes[0].with_b(if r.chance(0.5) { 1 } else { r.range(1, 3) as u32 }) } else { gen::mutate_shape(r, shapes[0]) };
        let v: Vec<f32> = (0..s2.n()).map(|_| r.uni(-2., 2.) as f32).collect();
        let x = tensor(w.dev, s2, &v);
        let xn = tensor(w.naive, s2, &v);
        let q = r.us(5);
        let f = |x: &Tensor<'static>, y: &mut Tensor<'static>| match q {
            0 => *y += x,
            1 => *y -= x,
            2 => *y *= 1.5,
            3 => y.reset(2.5),
            _ => y.device().reset_tensor_by_tensor(y, x),
        };
        let a = catch(|| f(&x, &mut y));
        w.verdict().map_err(|e| format!("in-place {} of {:?} and {:?}: {}", q, shapes[0], s2, e))?;
        let b = catch(|| f(&xn, &mut z));
        ensure!(a.is_ok() == b.is_ok(), "in-place {} of {:?} and {:?}: {:?}, built in {:?}", q, shapes[0], s2, a, b);
        let (yv, zv) = (y.to_vec(), z.to_vec());
        ensure!(
            yv.iter().zip(&zv).all(|(a, b)| (a - b).abs() <= 1e-5 * (1. + b.abs())),
            "in-place {} of {:?} and {:?}: {:?}, built in {:?}", q, shapes[0], s2, yv, zv
        );
    }
    drop(xs);
    w.verdict()?;
    rep.distinct(&(format!("{:?}", op), shapes.clone(), style));
    rep.count(if want.is_some() { "accepted" } else { "refused" });
    rep.sample(|| what(""));
    Ok(())
}

/// The kernel called for an operation is the one of that operation, with its operands and arguments.
fn named(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let kind = *r.pick(KINDS);
    let max = gen::limit(r, 30, 5_000, 0.01);
    let (op, shapes) = gen::op(r, kind, max);
    let data = gen::values(r, &op, &shapes, Vals::Plain);
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(w.dev, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let style = r.below(64) as u32;
    let lazily = op.lazy() && r.chance(0.5);
    let elementary = !matches!(kind, "Flatten" | "Reshape" | "LnSoftmax" | "Softmax" | "Sce" | "SparseSce" | "Split" | "BatchSplit" | "Relu" | "Lrelu");
    let pieces = matches!(kind, "Concat" | "BatchConcat" | "Broadcast" | "Sum" | "Lse" | "BatchSum" | "Softplus");
    // the same kernels serve constants on the left
    let want = format!("{:?}", match &op {
        Op::KAdd(k) => Op::AddK(*k),
        Op::KMul(k) => Op::MulK(*k),
        o => o.clone(),
    });
    let what = |m: &str| format!("{} {:?} on {:?}", m, op, shapes);
    let take = |when: &str| -> Result<Vec<own::Call>, String> {
        w.verdict().map_err(|e| format!("{}: {}", what(when), e))?;
        Ok(w.own.st().log.take().unwrap())
    };
    w.own.st().log = Some(vec![]);
    let forward = |l: Vec<own::Call>, m: &str| -> Result<(), String> {
        if elementary {
            ensure!(l.len() == 1 && l[0].1.as_ref() == Some(&want), "{} called {:?}", what(m), l);
            let operands: Vec<(Sh, Vec<f32>)> = shapes.iter().copied().zip(data.iter().cloned()).collect();
            let swapped = matches!(op, Op::Add | Op::Mul) && l[0].2.len() == 2 && l[0].2[0] == operands[1] && l[0].2[1] == operands[0];
            ensure!(l[0].2 == operands || swapped, "{} called {:?}, the operands are {:?}", what(m), l, operands);
        }
        Ok(())
    };
    if lazily {
        let ns: Vec<Node> = xs.iter().map(Node::from).collect();
        let ys = lazy(&op, &ns.iter().collect::<Vec<_>>(), style % 4);
        let l = take("creating nodes")?;
        ensure!(l.is_empty(), "{} called {:?}", what("creating nodes"), l);
        w.own.st().log = Some(vec![]);
        ys.iter().for_each(|y| y.forward());
        forward(take("nodes")?, "nodes")?;
        w.own.st().log = Some(vec![]);
        ys[0].backward();
        let l = take("backward")?;
        // the derivative is the backend's own where it has a kernel for it
        if elementary && !pieces && shapes.len() == 1 {
            ensure!(l.len() == 1 && l[0].0.contains("_bw") && l[0].1.as_ref() == Some(&want), "{} called {:?}", what("backward"), l);
        }
        if kind == "Matmul" {
            ensure!(l.iter().all(|c| c.1.as_ref() == Some(&want)), "{} called {:?}", what("backward"), l);
            let mut n: Vec<&str> = l.iter().map(|c| c.0.as_str()).collect();
            n.sort();
            ensure!(n == ["matmul_bw_a_impl", "matmul_bw_b_impl"], "{} called {:?}", what("backward"), l);
        }
        rep.count("named_backward");
    } else {
        drop(eager(&op, &refs, style));
        forward(take("eager")?, "eager")?;
    }
    rep.count("named_calls");
    rep.distinct(&(format!("{:?}", op), style));
    Ok(())
}

/// Tensors that are not allocated or were taken over, and tensors of another device, in every operand position.
fn foreign(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().collect();
    let kind = *r.pick(&all);
    let (op, shapes) = gen::op(r, kind, 40);
    let data = gen::values(r, &op, &shapes, Vals::Plain);
    let k = r.us(shapes.len());
    let mode = r.us(3);
    // 0: another own device, 1: the built-in backend, 2: no buffer
    let xs: Vec<Tensor<'static>> = shapes
        .iter()
        .zip(&data)
        .enumerate()
        .map(|(i, (s, d))| {
            if i != k {
                tensor(w.dev, *s, d)
            } else {
                match mode {
                    0 => tensor(w.other, *s, d),
                    1 => tensor(w.naive, *s, d),
                    _ => w.dev.new_tensor(s.real()),
                }
            }
        })
        .collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let style = r.below(4) as u32;
    let must_fail = mode == 2 || shapes.len() > 1;
    // batch normalisation and the like may ignore an operand
    let ignores = matches!(op, Op::BatchNorm(_, false) | Op::Dropout(_, false) | Op::DropoutDim(_, _, false));
    let a = catch(|| eager(&op, &refs, style).iter().map(|y| y.to_vec()).collect::<Vec<_>>());
    w.verdict().map_err(|e| format!("{:?} of {:?} with operand {} on another device or without a buffer ({}): {}", op, shapes, k, mode, e))?;
    // a tensor without a buffer has the shape only; operations that read no value are fine
    if must_fail && !ignores && mode != 2 {
        ensure!(a.is_err(), "{:?} of {:?} with operand {} on another device was accepted", op, shapes, k);
    }
    if op.lazy() && mode != 2 {
        let b = catch(|| {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let rn: Vec<&Node> = ns.iter().collect();
            let ys = lazy(&op, &rn, style);
            for y in &ys {
                y.to_vec();
            }
            ys[0].backward();
        });
        w.verdict().map_err(|e| format!("nodes: {:?} of {:?} with operand {} on another device ({}): {}", op, shapes, k, mode, e))?;
        if must_fail && !ignores {
            ensure!(b.is_err(), "{:?} of nodes {:?} with operand {} on another device was accepted", op, shapes, k);
        }
    }
    // everything that takes a device and a tensor
    let s = shapes[0];
    let t = if r.chance(0.5) { tensor(w.other, s, &data[0]) } else { tensor(w.naive, s, &data[0]) };
    let mut own = tensor(w.dev, s, &data[0]);
    let mut tt = w.other.copy_tensor(&tensor(w.other, s, &data[0]));
    let q = r.us(16);
    let res = catch(|| match q {
        0 => own += &t,
        1 => own -= &t,
        2 => w.dev.reset_tensor(&mut tt, 1.),
        3 => w.dev.reset_tensor_by_slice(&mut tt, &data[0]),
        4 => w.dev.reset_tensor_by_tensor(&mut own, &t),
        5 => w.dev.reset_tensor_by_tensor(&mut tt, &own),
        6 => drop(w.dev.tensor_to_vector(&t)),
        7 => drop(w.dev.copy_tensor(&t)),
        8 => drop(w.dev.argmax(&t, 0)),
        9 => drop(w.dev.argsort(&t, 0)),
        10 => w.dev.mul_assign_const(2., &mut tt),
        11 => w.dev.add_assign(&own, &mut tt),
        12 => {
            let mut u = w.dev.new_tensor(s.real());
            u.replace(tensor(w.other, s, &data[0]));
        }
        13 => {
            let mut u = w.dev.new_tensor(s.real());
            u.refer(unsafe { &*(&t as *const _) });
            u.to_vec();
        }
        14 => drop(w.dev.argmin(&t, 0)),
        _ => drop(w.dev.exp_fw(&t)),
    });
    w.verdict().map_err(|e| format!("device call {} with a tensor of another device, shape {:?}: {}", q, s, e))?;
    ensure!(res.is_err(), "device call {} accepted a tensor of another device", q);
    ensure!(check::same_bits(&own.to_vec(), &data[0]), "device call {} with a tensor of another device changed a tensor", q);
    rep.count("refused_device_calls");
    rep.distinct(&(format!("{:?}", op), k, mode, q));
    Ok(())
}

/// A backend without some kernels: what needs them panics, the rest works.
fn missing(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let all: Vec<&str> = KINDS.to_vec();
    let kind = *r.pick(&all);
    let (op, shapes) = gen::op(r, kind, 20);
    let data = gen::values(r, &op, &shapes, Vals::Smooth);
    let go = |dev: Dev| -> Vec<Vec<f32>> {
        let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
        let refs: Vec<&Tensor> = xs.iter().collect();
        let mut out: Vec<Vec<f32>> = eager(&op, &refs, 0).iter().map(|y| y.to_vec()).collect();
        if op.lazy() {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let rn: Vec<&Node> = ns.iter().collect();
            let ys = lazy(&op, &rn, 0);
            ys[0].backward();
            out.extend(ns.iter().map(|n| n.inner_gradient().to_vec()));
        }
        out
    };
    w.own.st().calls.clear();
    let full = match catch(|| go(w.dev)) {
        Ok(v) => v,
        Err(m) => return Err(format!("{:?} on {:?} panicked: {}", op, shapes, m)),
    };
    w.verdict().map_err(|e| format!("{:?} on {:?}: {}", op, shapes, e))?;
    let used: Vec<String> = w.own.st().calls.keys().cloned().collect();
    let names: Vec<String> = w.naive.verif_kernel_names().concat();
    let skip = if r.chance(0.7) { r.pick(&used).clone() } else { r.pick(&names).clone() };
    let (d, own) = own::device(&[&skip]);
    let d = Fresh(leak(d));
    let got = catch(|| go(d.0));
    own.verdict().map_err(|e| format!("{:?} on {:?} without {}: {}", op, shapes, skip, e))?;
    if used.contains(&skip) {
        ensure!(got.is_err(), "{:?} on {:?} gave a result on a backend without {}", op, shapes, skip);
        rep.count("needed_kernel_missing");
    } else {
        match got {
            Ok(v) => ensure!(v.len() == full.len() && v.iter().zip(&full).all(|(a, b)| check::same_bits(a, b)), "{:?} on {:?} differs without the unrelated kernel {}", op, shapes, skip),
            Err(m) => return Err(format!("{:?} on {:?} panicked without the unrelated kernel {}: {}", op, shapes, skip, m)),
        }
        rep.count("unrelated_kernel_missing");
    }
    rep.distinct(&(format!("{:?}", op), skip));
    Ok(())
}

enum Opt {
    S(SGD),
    M(MomentumSGD),
    A(Adam),
}
impl Opt {
    fn o(&mut self) -> &mut dyn Optimizer2 {
        match self {
            Opt::S(x) => x,
            Opt::M(x) => x,
            Opt::A(x) => x,
        }
    }
}
trait Optimizer2 {
    fn conf(&mut self, p: &mut [&mut Parameter]);
    fn upd(&mut self, p: &mut [&mut Parameter]);
    fn set(&mut self, decay: f32, clip: f32, rate: f32);
}
impl<T: Optimizer + OptimizerBase> Optimizer2 for T {
    fn conf(&mut self, p: &mut [&mut Parameter]) {
        self.configure_parameters(p)
    }
    fn upd(&mut self, p: &mut [&mut Parameter]) {
        self.update_parameters(p)
    }
    fn set(&mut self, decay: f32, clip: f32, rate: f32) {
        self.set_weight_decay(decay);
        self.set_gradient_clipping(clip);
        self.set_learning_rate_scaling(rate);
    }
}

/// Training on the own backend and on the built-in one.
fn training(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = r.range(1, 4) as usize;
    let shapes: Vec<Sh> = (0..n).map(|_| gen::shape(r, 12).with_b(1)).collect();
    let init: Vec<Vec<f32>> = shapes.iter().map(|s| (0..s.n()).map(|_| r.uni(-1., 1.) as f32).collect()).collect();
    let which = r.us(3);
    let (decay, clip, rate) = (if r.chance(0.5) { 0.01 } else { 0. }, if r.chance(0.5) { 0.5 } else { 0. }, if r.chance(0.3) { 0.5 } else { 1. });
    let steps = r.range(1, 6);
    let seed = r.next();
    let go = |dev: Dev| -> Vec<Vec<f32>> {
        let mut r = Rng::new(seed);
        let mut ps: Vec<Parameter<'static>> = shapes
            .iter()
            .zip(&init)
            .map(|(s, v)| {
                let mut p: Parameter<'static> = dev.new_parameter(s.real(), &I::Constant::new(0.));
                dev.reset_tensor_by_slice(&mut p.value, v);
                p
            })
            .collect();
        let mut o = match which {
            0 => Opt::S(SGD::new(0.1)),
            1 => Opt::M(MomentumSGD::new(0.1, 0.9)),
            _ => Opt::A(Adam::new(0.01, 0.9, 0.999, 1e-8)),
        };
        o.o().set(decay, clip, rate);
        {
            let mut rp: Vec<&mut Parameter> = ps.iter_mut().collect();
            o.o().conf(&mut rp);
        }
        let mut out = vec![];
        for _ in 0..steps {
            {
                let mut total: Option<Node> = None;
                for (p, s) in ps.iter_mut().zip(&shapes) {
                    let c: Vec<f32> = (0..s.n()).map(|_| r.uni(0.2, 1.) as f32).collect();
                    let x = Node::from(p);
                    let t = Node::from(tensor(dev, *s, &c));
                    let d = (&x - &t) * (&x - &t);
                    let l = d.flatten().sum(0);
                    total = Some(match total {
                        None => l,
                        Some(q) => q + l,
                    });
                }
                let total = total.unwrap();
                total.backward();
                out.push(total.to_vec());
            }
            let mut rp: Vec<&mut Parameter> = ps.iter_mut().collect();
            o.o().upd(&mut rp);
        }
        for p in &ps {
            out.push(p.value.to_vec());
            out.push(p.gradient.to_vec());
        }
        out
    };
    let a = catch(|| go(w.dev));
    let what = format!("training {} parameters {:?} decay {} clipping {} rate {} steps {}", which, shapes, decay, clip, rate, steps);
    w.verdict().map_err(|e| format!("{}: {}", what, e))?;
    let a = a.map_err(|m| format!("{} panicked: {}", what, m))?;
    let b = go(w.naive);
    for (x, y) in a.iter().zip(&b) {
        for (x, y) in x.iter().zip(y) {
            ensure!((x - y).abs() <= 2e-3 * (y.abs() + 0.05), "{}: {:?}, built in {:?}", what, a, b);
        }
    }
    rep.distinct(&what);
    rep.sample(|| what);
    Ok(())
}

/// Random tensors, initializers and random masks: filled by the backend, or as the parameters leave no choice.
fn random(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let max = gen::limit(r, 20, 3_000, 0.02);
    let s = gen::shape(r, max);
    let (kind, a, b) = match r.us(9) {
        0 | 1 => (0, *r.pick(&[0f32, 1., 0.5, 1e-30, 0.999]), 0.),
        2 | 3 => {
            let lo = *r.pick(&[0f32, -1., 3., -0.5]);
            (1, lo, lo + *r.pick(&[1f32, 0.5, 2e-6, 100.]))
        }
        4 | 5 => (2, *r.pick(&[0f32, 0., 1., -2.5]), *r.pick(&[0f32, 0., 1., 1e-3])),
        6 => (3, *r.pick(&[0f32, 1., -0., 2.5]), 0.),
        7 => (4, *r.pick(&[1f32, 0.5, 0., 1e-3]), 0.),
        _ => (5, *r.pick(&[0f32, 0.5, 1., 0.25, 1e-3, 1.5]), 0.),
    };
    // 0: tensor, 1: initializer on a new parameter, 2: initializer on a tensor without buffer, 3: node
    let how = r.us(4);
    let what = format!("random {} {} {} of {:?} way {}", kind, a, b, s, how);
    let init: Option<Box<dyn Initializer>> = match kind {
        1 => Some(Box::new(I::Uniform::new(a, b))),
        2 => Some(Box::new(I::Normal::new(a, b))),
        3 => Some(Box::new(I::Constant::new(a))),
        4 => Some(Box::new(I::XavierUniform::new(a))),
        _ => None,
    };
    let xs: Vec<f32> = (0..s.n()).map(|_| r.uni(1., 2.) as f32).collect();
    let got = catch(|| match (&init, kind) {
        (None, 5) if how == 3 => {
            let n = Node::from(tensor(w.dev, s, &xs));
            let y = n.dropout(a, true);
            let v = y.to_vec();
            y.backward();
            n.inner_gradient().to_vec();
            v
        }
        (None, 5) => tensor(w.dev, s, &xs).dropout(a, true).to_vec(),
        (None, _) => w.dev.random_bernoulli(s.real(), a).to_vec(),
        (Some(_), 1) if how == 0 => w.dev.random_uniform(s.real(), a, b).to_vec(),
        (Some(_), 2) if how == 0 => w.dev.random_normal(s.real(), a, b).to_vec(),
        (Some(i), _) if how == 2 => {
            let mut x = w.dev.new_tensor(s.real());
            i.apply(&mut x);
            x.to_vec()
        }
        (Some(i), _) => {
            let p = w.dev.new_parameter(s.with_b(1).real(), &**i);
            ensure_zero(&p.gradient.to_vec());
            p.value.to_vec()
        }
    });
    w.verdict().map_err(|e| format!("{}: {}", what, e))?;
    let matrix = s.d[2..].iter().all(|&d| d == 1);
    let v = match got {
        Ok(v) => v,
        Err(_) if kind == 4 && !matrix => return Ok(()),
        Err(m) => return Err(format!("{} panicked: {}", what, m)),
    };
    let n = if init.is_some() && how != 2 && !(how == 0 && kind < 3) { s.with_b(1).n() } else { s.n() };
    ensure!(v.len() == n, "{}: {} values", what, v.len());
    let ok = |i: usize, x: f32| match kind {
        0 => (x == 0. && a < 1.) || (x == 1. && a > 0.),
        1 => x >= a && x <= b,
        2 if b == 0. => x == a,
        2 => (x - a).abs() < 50. * b,
        3 => x == a,
        4 => x.abs() <= a * 6f32.sqrt(),
        _ if a >= 1. => x == 0.,
        _ => (x == 0. && a > 0.) || (x * (1. - a) - xs[i]).abs() < 1e-5 * xs[i],
    };
    for (i, x) in v.iter().enumerate() {
        ensure!(ok(i, *x), "{}: element {} is {}", what, i, x);
    }
    rep.count(&format!("random_{}", ["bernoulli", "uniform", "normal", "constant", "xavier", "dropout"][kind]));
    rep.add("random_elements", v.len() as u64);
    rep.distinct(&what);
    Ok(())
}
fn ensure_zero(v: &[f32]) {
    assert!(v.iter().all(|x| *x == 0.), "a new gradient holds {:?}", v);
}

fn main() {
    let cfg = Cfg::from_args();
    for exact in [true, false] {
        Device::verif_set_exact_buffers(exact);
        let sfx = if exact { "" } else { "_pooled" };
        let q = if exact { 1. } else { 0.35 };
        let n = |a: u64, b: u64| (cfg.q(a, b) as f64 * q) as u64;
        let flush = |w: &W, rep: &mut Rep| {
            let mut s = w.own.st();
            if s.calls.values().sum::<u64>() > 5000 {
                for (k, v) in std::mem::take(&mut s.calls) {
                    rep.add(&format!("kernel_{}", k), v);
                }
                rep.add("tensors_checked", std::mem::take(&mut s.checked));
                rep.add("buffers", std::mem::take(&mut s.allocs));
            }
        };
        cfg.stage(&format!("programs{}", sfx), n(60_000, 1_500_000), 10., w, |w, r, rep| {
            flush(w, rep);
            programs(w, r, rep)
        });
        cfg.stage(&format!("calls{}", sfx), n(150_000, 3_000_000), 10., w, |w, r, rep| {
            flush(w, rep);
            calls(w, r, rep)
        });
        cfg.stage(&format!("named{}", sfx), n(30_000, 600_000), 6., w, |w, r, rep| {
            flush(w, rep);
            named(w, r, rep)
        });
        cfg.stage(&format!("random{}", sfx), n(30_000, 600_000), 5., w, |w, r, rep| {
            flush(w, rep);
            random(w, r, rep)
        });
        cfg.stage(&format!("device{}", sfx), n(60_000, 1_000_000), 6., w, |w, r, rep| {
            let other = if r.chance(0.5) { w.other } else { w.naive };
            let res = hcore::single::device_fw(w.dev, other, r, rep, 60);
            w.verdict()?;
            res
        });
        cfg.stage(&format!("foreign{}", sfx), n(60_000, 1_000_000), 6., w, |w, r, rep| foreign(w, r, rep));
        cfg.stage(&format!("missing{}", sfx), n(20_000, 400_000), 6., w, |w, r, rep| missing(w, r, rep));
        cfg.stage(&format!("training{}", sfx), n(10_000, 200_000), 6., w, |w, r, rep| training(w, r, rep));
    }
    cfg.finish(
        "random programs (lazy, backward, eager), single valid and invalid calls in all styles, in-place updates, index queries training steps, random tensors, masks and initializers (also with degenerate parameters) on a backend made of independent kernels that checks every call: buffers it allocated, live, large enough, with computed contents (fresh buffers hold a marker), shapes, operand counts and arguments of the kernel's contract, and that a result passed to a backward kernel belongs to its operands; calls with tensors of other devices or without buffers, and backends lacking a kernel; results compared with the reference or the built-in backend",
        &["the contract of each kernel is the one stated in harness/src/own.rs; kernels not listed there are only checked for buffers and contents"],
    )
}
