//! C03: nodes against tensors.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::prog::*;
use hcore::refm::*;
use hcore::single::{any_finite, EDGE_KINDS};
use hcore::util::*;
use hcore::ensure;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Parameter, Tensor};

fn agree(a: &[f32], b: &[f32], exact: bool, scale: f64) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{} and {} values", a.len(), b.len());
    for i in 0..a.len() {
        let (x, y) = (a[i] as f64, b[i] as f64);
        let ok = if exact { x == y } else { x == y || (x.is_nan() && y.is_nan()) || (x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-5 * (x.abs().max(y.abs()) + scale)) };
        ensure!(ok, "element {} is {} eagerly and {} lazily", i, a[i], b[i]);
    }
    Ok(())
}

fn single(dev: Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().filter(|k| *k != "KPow").collect();
    let kind = *r.pick(&all);
    let max = gen::limit(r, 60, 20_000, 0.01);
    let (mut op, mut shapes) = gen::op(r, kind, max);
    let n = if r.chance(0.5) { 0 } else { r.range(1, 2) };
    for _ in 0..n {
        if r.chance(0.4) {
            gen::mutate_args(r, &mut op);
        } else {
            let k = r.us(shapes.len());
            shapes[k] = gen::mutate_shape(r, shapes[k]);
        }
    }
    let random = matches!(op, Op::Dropout(p, true) | Op::DropoutDim(_, p, true) if p < 1.);
    if let Op::Broadcast(_, n) = op {
        if n > 100_000 {
            return Ok(());
        }
    }
    let vals = if r.chance(0.3) { Vals::Int } else { Vals::Plain };
    let mut data = gen::values(r, &gen::domain(&op, &shapes), &shapes, vals);
    // elementwise operations see any finite number
    if (EDGE_KINDS.contains(&kind) || ["Add", "Sub", "Mul", "Div", "AddK", "SubK", "MulK", "DivK", "KAdd", "KSub", "KMul", "KDiv", "Neg", "Sqrt", "Abs", "Max", "Min"].contains(&kind)) && r.chance(0.4) {
        for d in data.iter_mut() {
            for x in d.iter_mut() {
                *x = any_finite(r);
            }
        }
        rep.count("any_finite");
    }
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let style = r.below(4) as u32;
    let what = || format!("{:?} on {:?}", op, shapes);
    let e = catch(|| eager(&op, &refs, style).iter().map(|y| (Sh::of(y.shape()), y.to_vec())).collect::<Vec<_>>());
    let leaf = r.below(3);
    let mut before: Vec<Sh> = vec![];
    let l = catch(|| {
        // leaves: borrowed tensors, owned tensors or parameters
        let mut ps: Vec<Parameter<'static>> = vec![];
        if leaf == 2 && shapes.iter().all(|s| s.b == 1) {
            ps = shapes.iter().zip(&data).map(|(s, d)| Parameter::new(tensor(dev, *s, d), tensor(dev, *s, &vec![0.; d.len()]))).collect();
        }
        let ns: Vec<Node> = if !ps.is_empty() {
            ps.iter_mut().map(|p| Node::from(p)).collect()
        } else if leaf == 1 {
            shapes.iter().zip(&data).map(|(s, d)| Node::from(tensor(dev, *s, d))).collect()
        } else {
            xs.iter().map(Node::from).collect()
        };
        let rn: Vec<&Node> = ns.iter().collect();
        let ys = lazy(&op, &rn, style);
        before = ys.iter().map(|y| Sh::of(y.shape())).collect();
        ys.iter().map(|y| { let v = y.to_vec(); (Sh::of(y.shape()), v) }).collect::<Vec<_>>()
    });
    match (&e, &l) {
        (Err(_), Err(_)) => rep.count("refused_by_both"),
        (Ok(e), Ok(l)) => {
            ensure!(e.len() == l.len() && l.len() == before.len(), "{}: {} and {} results", what(), e.len(), l.len());
            for k in 0..e.len() {
                ensure!(e[k].0 == l[k].0 && before[k] == l[k].0, "{}: eager shape {:?}, node shape {:?} before and {:?} after evaluation", what(), e[k].0, before[k], l[k].0);
                if !random {
                    agree(&e[k].1, &l[k].1, op.structural(), 1.).map_err(|m| format!("{}: {}; inputs {:?}", what(), m, data))?;
                }
                rep.add("elements", e[k].1.len() as u64);
            }
            rep.count(&format!("op_{}", kind));
            rep.distinct(&(format!("{:?}", op), shapes.clone()));
        }
        (Ok(e), Err(m)) => return Err(format!("{} gives {:?} eagerly but panics lazily: {}", what(), e.iter().map(|x| x.0).collect::<Vec<_>>(), m)),
        (Err(m), Ok(e)) => return Err(format!("{} gives {:?} lazily but panics eagerly: {}", what(), e.iter().map(|x| x.0).collect::<Vec<_>>(), m)),
    }
    rep.sample(|| what());
    Ok(())
}

fn program(dev: Dev, r: &mut Rng, rep: &mut Rep, class: Class, steps: usize) -> Result<(), String> {
    let mut o = Opts::new(r.range(2, steps as i64) as usize);
    o.max = 120;
    let p = Prog::generate(r, class, &o);
    if r.chance(0.4) {
        poison(dev, &[64, 128], 8, f32::NAN);
    }
    let ts = p.tensors(|k| p.leaf_tensor(dev, k));
    let inputs: Vec<Tensor<'static>> = (0..p.leaves.len()).map(|k| p.leaf_tensor(dev, k)).collect();
    let nodes = p.nodes(|k| if p.leaves[k].kind == LeafKind::Owned { Node::from(p.leaf_tensor(dev, k)) } else { Node::from(&inputs[k]) });
    for (v, n) in nodes.iter().enumerate() {
        ensure!(Sh::of(n.shape()) == p.vars[v], "shape of unevaluated v{}: {:?}, expected {:?} in {:?}", v, n.shape(), p.vars[v], p);
        // intermediate nodes hold nothing before evaluation
    }
    let mut order: Vec<usize> = (0..nodes.len()).collect();
    match r.us(3) {
        0 => order.reverse(),
        1 => r.shuffle(&mut order),
        _ => (),
    }
    for v in order {
        let e = ts[v].to_vec();
        let l = nodes[v].to_vec();
        ensure!(ts[v].shape() == nodes[v].shape(), "shapes of v{} in {:?}", v, p);
        if class == Class::Int {
            agree(&e, &l, true, 1.).map_err(|m| format!("v{}: {} in {:?}", v, m, p))?;
        }
        for (i, (g, w)) in l.iter().zip(&p.val[v].x).chain(e.iter().zip(&p.val[v].x)).enumerate() {
            let tol = if class == Class::Int { 0. } else { 4. * w.e.e + 1e-6 };
            ensure!((*g as f64 - w.e.v).abs() <= tol, "v{} element {} is {}, expected {} in {:?}", v, i, g, w.e.v, p);
        }
        rep.add("elements", e.len() as u64);
        if r.chance(0.2) {
            let d = r.below(8) as u32;
            // the queries depend on exact comparisons: only where both values agree exactly
            if e == l {
                ensure!(ts[v].argmax(d) == nodes[v].argmax(d), "argmax of v{} along {} in {:?}", v, d, p);
                ensure!(ts[v].argmin(d) == nodes[v].argmin(d), "argmin of v{} along {} in {:?}", v, d, p);
                ensure!(ts[v].argsort(d) == nodes[v].argsort(d), "argsort of v{} along {} in {:?}", v, d, p);
                rep.count("index_queries");
            }
        }
        if p.vars[v].n() == 1 {
            ensure!(nodes[v].to_float() == l[0] && ts[v].to_float() == e[0], "to_float of v{} in {:?}", v, p);
        } else if r.chance(0.02) {
            ensure!(catch(|| nodes[v].to_float()).is_err() && catch(|| ts[v].to_float()).is_err(), "to_float of {:?} was accepted", p.vars[v]);
        }
    }
    for k in p.kinds() {
        rep.count(&format!("program_op_{}", k));
    }
    rep.distinct(&p.signature());
    rep.sample(|| format!("{:?}", p));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("single", cfg.q(500_000, 10_000_000), 12., naive, |dev, r, rep| single(*dev, r, rep));
    cfg.stage("integer", cfg.q(60_000, 1_500_000), 8., naive, |dev, r, rep| program(*dev, r, rep, Class::Int, 20));
    cfg.stage("smooth", cfg.q(60_000, 1_500_000), 8., naive, |dev, r, rep| program(*dev, r, rep, Class::Smooth, 14));
    cfg.finish(
        "random single calls (half of them with invalid arguments) and random programs over all operations, contributed ones included, evaluated through tensors and through nodes in several evaluation orders; non-trivial: accepted; distinct by operation, arguments, shapes or program",
        &["structural and integer results must be equal, others within 1e-5 relative to the magnitude"],
    )
}
