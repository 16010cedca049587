//! C11: purity and reproducibility.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::prog::*;
use hcore::refm::*;
use hcore::single::{cotangent, Sink};
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};
use prima_undine::{Node, Parameter, Tensor};

type Outcome = (Vec<Vec<f32>>, Vec<Vec<f32>>, Vec<Vec<f32>>);

/// Runs the program lazily (values, gradients) and eagerly; checks that nothing else changed.
fn run(dev: Dev, p: &Prog, roots: &[usize], rep: &mut Rep) -> Result<Outcome, String> {
    let nl = p.leaves.len();
    let bystander = tensor(dev, Sh::new(&[5], 2), &[1., 2., 3., 4., 5., 6., 7., 8., 9., 10.]);
    let mut ps: Vec<Option<Parameter<'static>>> = p
        .leaves
        .iter()
        .map(|l| {
            if l.kind == LeafKind::Param {
                Some(Parameter::new(tensor(dev, l.s, &l.data), tensor(dev, l.s, &vec![0.; l.s.n()])))
            } else {
                None
            }
        })
        .collect();
    let inputs: Vec<Tensor<'static>> = (0..nl).map(|k| p.leaf_tensor(dev, k)).collect();
    let vals: Vec<Vec<f32>> = {
        let mut ptr: Vec<*mut Parameter<'static>> = ps.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| p as *mut _)).collect();
        let nodes = p.nodes(|k| match p.leaves[k].kind {
            LeafKind::Param => Node::from(unsafe { &mut *ptr[k] }),
            LeafKind::Input => Node::from(&inputs[k]),
            LeafKind::Owned => Node::from(p.leaf_tensor(dev, k)),
        });
        ptr.clear();
        let vals: Vec<Vec<f32>> = nodes.iter().map(|n| n.to_vec()).collect();
        for &root in roots {
            nodes[root].backward();
            for (v, n) in nodes.iter().enumerate() {
                ensure!(check::same_bits(&n.to_vec(), &vals[v]), "backward from v{} changed the value of v{}; {:?}", root, v, p);
                rep.count("values_rechecked");
            }
        }
        vals
    };
    let ts = p.tensors(|k| p.leaf_tensor(dev, k));
    // all operands of the eager run still hold what they held when they were made
    let ev: Vec<Vec<f32>> = ts.iter().map(|t| t.to_vec()).collect();
    for l in &p.leaves {
        ensure!(check::same_bits(&ev[l.var], &l.data), "eager evaluation changed operand v{} of {:?}", l.var, p);
    }
    for k in 0..nl {
        ensure!(check::same_bits(&inputs[k].to_vec(), &p.leaves[k].data), "input v{} changed in {:?}", p.leaves[k].var, p);
        if let Some(q) = &ps[k] {
            ensure!(check::same_bits(&q.value.to_vec(), &p.leaves[k].data), "parameter value v{} changed in {:?}", p.leaves[k].var, p);
        }
    }
    ensure!(bystander.to_vec() == [1., 2., 3., 4., 5., 6., 7., 8., 9., 10.], "an unrelated tensor changed by {:?}", p);
    let grads = ps.iter().flatten().map(|p| p.gradient.to_vec()).collect();
    Ok((vals, grads, ev))
}

fn same(a: &Outcome, b: &Outcome, what: &str, p: &Prog) -> Result<(), String> {
    for (name, x, y) in [("value", &a.0, &b.0), ("gradient", &a.1, &b.1), ("eager value", &a.2, &b.2)] {
        for v in 0..x.len() {
            ensure!(check::same_bits(&x[v], &y[v]), "{} {} differs {}: {:?} and {:?}; {:?}", name, v, what, x[v], y[v], p);
        }
    }
    Ok(())
}

fn garbage(dev: Dev, r: &mut Rng) {
    let sizes = [64u32, 128, 256];
    let k = match r.us(3) {
        0 => f32::NAN,
        1 => 1e30,
        _ => r.uni(-5., 5.) as f32,
    };
    poison(dev, &sizes, r.range(1, 30) as usize, k);
}

fn program(dev: Dev, r: &mut Rng, rep: &mut Rep, class: Class) -> Result<(), String> {
    let mut o = Opts::new(r.range(1, 14) as usize);
    o.max = 90;
    let p = Prog::generate(r, class, &o);
    let nv = p.vars.len();
    let roots: Vec<usize> = (0..r.range(1, 3)).map(|_| nv - 1 - r.us(nv.min(3))).collect();
    let fresh = {
        let f = Fresh::new();
        run(f.0, &p, &roots, rep)?
    };
    garbage(dev, r);
    let dirty = run(dev, &p, &roots, rep)?;
    same(&fresh, &dirty, "between a fresh device and one with recycled buffers", &p)?;
    garbage(dev, r);
    let again = run(dev, &p, &roots, rep)?;
    same(&fresh, &again, "when repeated", &p)?;
    rep.distinct(&p.signature());
    rep.sample(|| format!("roots {:?} {:?}", roots, p));
    Ok(())
}

fn odd_values(r: &mut Rng, n: usize) -> Vec<f32> {
    (0..n)
        .map(|_| match r.us(12) {
            0 => f32::INFINITY,
            1 => f32::NEG_INFINITY,
            2 => f32::NAN,
            3 => -0.,
            4 => 1e38,
            5 => -1e-40,
            _ => r.uni(-3., 3.) as f32,
        })
        .collect()
}

/// One operation in every operand style, also on special values.
fn styles(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str]) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let max = gen::limit(r, 120, 20_000, 0.02);
    let (op, shapes) = gen::op(r, kind, max);
    let mut data = gen::values(r, &op, &shapes, Vals::Plain);
    if r.chance(0.2) {
        for d in data.iter_mut() {
            *d = odd_values(r, d.len());
        }
    }
    let nan_eq = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let bystander = tensor(dev, Sh::new(&[3], 1), &[1., 2., 3.]);
    let base: Vec<Vec<f32>> = eager(&op, &refs, 0).iter().map(|y| y.to_vec()).collect();
    let intact = |m: &str| -> Result<(), String> {
        for (k, x) in xs.iter().enumerate() {
            ensure!(
                check::same_bits(&x.to_vec(), &data[k]),
                "{:?} on {:?} {} changed operand {} from {:?} to {:?}",
                op,
                shapes,
                m,
                k,
                data[k],
                x.to_vec()
            );
        }
        ensure!(bystander.to_vec() == [1., 2., 3.], "{:?} on {:?} {} changed an unrelated tensor", op, shapes, m);
        Ok(())
    };
    intact("borrowed")?;
    for style in 0..4 {
        garbage(dev, r);
        let y: Vec<Vec<f32>> = eager(&op, &refs, style).iter().map(|y| y.to_vec()).collect();
        ensure!(
            y.len() == base.len() && y.iter().zip(&base).all(|(a, b)| nan_eq(a, b)),
            "{:?} on {:?} style {}: {:?}, with borrowed operands {:?}; inputs {:?}",
            op,
            shapes,
            style,
            y,
            base,
            data
        );
        intact("in another style")?;
        garbage(dev, r);
        let y: Vec<Vec<f32>> = eager_views(&op, dev, &refs, style).iter().map(|y| y.to_vec()).collect();
        ensure!(
            y.len() == base.len() && y.iter().zip(&base).all(|(a, b)| nan_eq(a, b)),
            "{:?} on views of {:?} style {}: {:?}, with borrowed operands {:?}; inputs {:?}",
            op,
            shapes,
            style,
            y,
            base,
            data
        );
        intact("through views")?;
        rep.add("style_results", 2);
    }
    // the same tensor as every operand
    if shapes.len() == 2 && op.infer(&[shapes[0], shapes[0]]).is_some() && !matches!(op, Op::Sce(_)) {
        let c = dev.copy_tensor(&xs[0]);
        let a: Vec<Vec<f32>> = eager(&op, &[&xs[0], &xs[0]], 0).iter().map(|y| y.to_vec()).collect();
        let b: Vec<Vec<f32>> = eager(&op, &[&xs[0], &c], 0).iter().map(|y| y.to_vec()).collect();
        ensure!(
            a.iter().zip(&b).all(|(a, b)| nan_eq(a, b)),
            "{:?} of a tensor with itself {:?}, with a copy {:?}; input {:?} {:?}",
            op,
            a,
            b,
            shapes[0],
            data[0]
        );
        intact("with itself")?;
        rep.count("same_operand_twice");
    }
    // the index queries
    if data[0].iter().all(|v| !v.is_nan()) {
        let d = r.below(8) as u32;
        let q = (xs[0].argmax(d), xs[0].argmin(d), xs[0].argsort(d));
        garbage(dev, r);
        ensure!(q == (xs[0].argmax(d), xs[0].argmin(d), xs[0].argsort(d)), "index queries are not reproducible");
        intact("queried")?;
    }
    rep.distinct(&(format!("{:?}", op), shapes.clone()));
    rep.count(&format!("op_{}", kind));
    Ok(())
}

/// The gradients of one operation for any incoming gradients.
fn gradients(dev: Dev, op: &Op, shapes: &[Sh], data: &[Vec<f32>], cot: &[(Sh, Vec<f32>)], start: &[Vec<f32>]) -> Vec<Vec<f32>> {
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let ns: Vec<Node> = xs.iter().map(Node::from).collect();
    let refs: Vec<&Node> = ns.iter().collect();
    let ys = lazy(op, &refs, 0);
    let mut sinks: Vec<&Node> = ys.iter().collect();
    sinks.extend(&ns);
    let mut w: Vec<Tensor<'static>> = cot.iter().map(|(s, d)| tensor(dev, *s, d)).collect();
    w.extend(shapes.iter().zip(start).map(|(s, d)| tensor(dev, *s, d)));
    let z = Node::create(Sink { dev, w }, &sinks).pop().unwrap();
    z.backward();
    ns.iter().map(|n| n.inner_gradient().to_vec()).collect()
}

/// Backward of a single operation on fresh and on recycled memory.
fn backward(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str]) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let max = gen::limit(r, 100, 5_000, 0.02);
    let (op, shapes) = gen::op(r, kind, max);
    if !op.lazy() {
        return Ok(());
    }
    let data = gen::values(r, &op, &shapes, Vals::Smooth);
    let cot: Vec<(Sh, Vec<f32>)> = op.infer(&shapes).unwrap().iter().map(|s| (*s, cotangent(r, s.n()))).collect();
    let start: Vec<Vec<f32>> = shapes.iter().map(|s| (0..s.n()).map(|_| r.range(-3, 3) as f32).collect()).collect();
    let fresh = {
        let f = Fresh::new();
        gradients(f.0, &op, &shapes, &data, &cot, &start)
    };
    for _ in 0..2 {
        garbage(dev, r);
        if max > 256 {
            poison(dev, &[512, 1024, 2048, 4096, 8192], 6, f32::NAN);
        }
        let g = gradients(dev, &op, &shapes, &data, &cot, &start);
        for (k, (a, b)) in fresh.iter().zip(&g).enumerate() {
            ensure!(check::same_bits(a, b), "the gradient of operand {} of {:?} on {:?} is {:?} on a fresh device and {:?} on one with recycled buffers; inputs {:?}, incoming {:?}", k, op, shapes, a, b, data, cot);
        }
        rep.count("backward_compared");
    }
    rep.count(&format!("op_{}", kind));
    rep.distinct(&(format!("{:?}", op), shapes.clone()));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().collect();
    cfg.stage("integer", cfg.q(20_000, 500_000), 8., naive, |dev, r, rep| program(*dev, r, rep, Class::Int));
    cfg.stage("smooth", cfg.q(30_000, 800_000), 10., naive, |dev, r, rep| program(*dev, r, rep, Class::Smooth));
    cfg.stage("styles", cfg.q(60_000, 1_500_000), 10., naive, |dev, r, rep| styles(*dev, r, rep, &all));
    cfg.stage("backward", cfg.q(60_000, 1_500_000), 8., naive, |dev, r, rep| backward(*dev, r, rep, &all));
    cfg.finish(
        "random programs run lazily, backward and eagerly on a fresh device and twice on a device with recycled buffers full of garbage; single operations in all operand styles, through views, and differentiated for random incoming gradients on fresh and recycled memory, and with special values; bitwise comparison of results and of everything that must stay; distinct by program or operation, arguments and shapes",
        &[],
    )
}
