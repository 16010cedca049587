//! C04: the vector-Jacobian product of every graph operation.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::refm::*;
use hcore::single::{any_finite, edge_op, vjp, Sink};
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::Node;

fn main() {
    let cfg = Cfg::from_args();
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().filter(|k| *k != "KPow").collect();
    cfg.stage("small", cfg.q(400_000, 10_000_000), 14., naive, |dev, r, rep| vjp(*dev, r, rep, &all, 30, Vals::Smooth));
    cfg.stage("large", cfg.q(25_000, 600_000), 8., naive, |dev, r, rep| vjp(*dev, r, rep, &all, 400, Vals::Smooth));
    cfg.stage("huge", cfg.q(1_500, 40_000), 6., naive, |dev, r, rep| vjp(*dev, r, rep, &all, 60_000, Vals::Smooth));
    cfg.stage("wide", cfg.q(2_000, 50_000), 5., naive, |dev, r, rep| vjp(*dev, r, rep, &all, 4000, Vals::Smooth));
    // the saturating functions and the softmax family are left to C23
    let plain: Vec<&str> = all
        .iter()
        .copied()
        .filter(|k| !CONTRIB_KINDS.contains(k) && !["Tanh", "Sigmoid", "Softplus", "Elu", "Lse", "Softmax", "LnSoftmax", "Sce", "SparseSce", "Tan", "Max", "Min"].contains(k))
        .collect();
    cfg.stage("magnitudes", cfg.q(100_000, 3_000_000), 5., naive, |dev, r, rep| vjp(*dev, r, rep, &plain, 30, Vals::Wide));
    // derivatives of elementwise functions at any finite number
    cfg.stage("edges", cfg.q(200_000, 4_000_000), 5., naive, |dev, r, rep| {
        const UNARY: &[&str] = &[
            "AddK", "SubK", "MulK", "DivK", "PowK", "KAdd", "KSub", "KMul", "KDiv", "Powi", "Neg", "Sqrt", "Abs", "Sin", "Cos", "Tan", "Exp",
            "Ln", "Tanh", "Sigmoid", "Softplus", "Relu", "Lrelu", "Prelu", "Elu",
        ];
        let kind = *r.pick(UNARY);
        let (op, shapes) = edge_op(r, kind, 60);
        let s = shapes[0];
        let x: Vec<f32> = (0..s.n()).map(|_| if r.chance(0.7) { any_finite(r) } else { r.uni(-12., 12.) as f32 }).collect();
        let w: Vec<f32> = (0..s.n()).map(|_| r.uni(-2., 2.) as f32).collect();
        let t = tensor(*dev, s, &x);
        let n = Node::from(&t);
        let y = lazy(&op, &[&n], r.below(4) as u32).pop().unwrap();
        let z = Node::create(Sink { dev: *dev, w: vec![tensor(*dev, s, &w)] }, &[&y]).pop().unwrap();
        z.backward();
        let g = n.inner_gradient().to_vec();
        for i in 0..s.n() {
            let a = x[i] as f64;
            let sig = |a: f64| 1. / (1. + (-a).exp());
            let (d, abs) = match op {
                Op::AddK(_) | Op::SubK(_) | Op::KAdd(_) => (1., 0.),
                Op::KSub(_) | Op::Neg => (-1., 0.),
                Op::MulK(k) | Op::KMul(k) => (k as f64, 0.),
                Op::DivK(k) => (1. / k as f64, 0.),
                Op::PowK(k) => (k as f64 * a.powf(k as f64 - 1.), 0.),
                Op::KDiv(k) => (-(k as f64) / (a * a), 0.),
                Op::Powi(k) if k.unsigned_abs() <= 60 => (k as f64 * a.powi(k - 1), 0.),
                Op::Sqrt => (0.5 / a.sqrt(), 0.),
                Op::Abs if a != 0. => (a.signum(), 0.),
                Op::Sin => (a.cos(), 1e-6),
                Op::Cos => (-a.sin(), 1e-6),
                Op::Tan => (1. + a.tan() * a.tan(), 1e-6),
                Op::Exp => (a.exp(), 0.),
                Op::Ln if a > 0. => (1. / a, 0.),
                Op::Tanh => (1. - a.tanh() * a.tanh(), 2e-6),
                Op::Sigmoid => (sig(a) * (1. - sig(a)), 2e-6),
                Op::Softplus => (sig(a), 2e-6),
                Op::Relu if a != 0. => (if a > 0. { 1. } else { 0. }, 0.),
                Op::Lrelu if a != 0. => (if a > 0. { 1. } else { 0.01 }, 0.),
                Op::Prelu(k) if a != 0. => (if a > 0. { 1. } else { k as f64 }, 0.),
                Op::Elu(k) if a != 0. => (if a > 0. { 1. } else { k as f64 * a.exp() }, 2e-6 * (k as f64).abs()),
                _ => continue,
            };
            // beyond this range intermediate results may overflow or vanish
            let yv = op.eval(&[&RT::<f64> { s: Sh::scalar(), x: vec![a] }])[0].x[0].abs();
            if d.is_nan() || d.abs() > 1e30 || a.abs() > 1e30 && abs == 0. && matches!(op, Op::KDiv(_) | Op::Powi(_) | Op::PowK(_)) || !(yv < 1e30) || a != 0. && a.abs() < 1e-30 || yv != 0. && yv < 1e-30 {
                rep.count("edge_out_of_range");
                continue;
            }
            let want = d * w[i] as f64;
            let tol = want.abs() * if matches!(op, Op::Powi(_) | Op::PowK(_)) { 1e-4 } else { 3e-5 } + abs * w[i].abs() as f64 + 1e-30;
            hcore::ensure!((g[i] as f64 - want).abs() <= tol, "the gradient of {:?} at {:?} is {:?} instead of {:?} (incoming {:?}); element {} of {:?}", op, x[i], g[i], want, w[i], i, s);
            rep.count(if a.abs() > 1e3 || a != 0. && a.abs() < 1e-3 { "edge_far" } else { "edge_near" });
        }
        rep.count(&format!("edge_{}", kind));
        rep.distinct(&(format!("{:?}", op), s));
        Ok(())
    });
    // the base of a power may be zero: x^k with k >= 1 has the derivative k x^(k-1) there
    cfg.stage("zero_base", cfg.q(30_000, 600_000), 4., naive, |dev, r, rep| {
        let (op, shapes) = gen::op(r, "Pow", 60);
        let (a, b) = (shapes[0], shapes[1]);
        let o = op.infer(&shapes).unwrap()[0];
        let x: Vec<f32> = (0..a.n()).map(|_| if r.chance(0.4) { 0. } else { r.uni(-3., 3.) as f32 }).collect();
        let k: Vec<f32> = (0..b.n()).map(|_| *r.pick(&[1., 2., 2., 3., 4.])).collect();
        let w: Vec<f32> = (0..o.n()).map(|_| r.uni(-2., 2.) as f32).collect();
        let (xt, kt) = (tensor(*dev, a, &x), tensor(*dev, b, &k));
        let n = Node::from(&xt);
        let m = Node::from(&kt);
        let y = n.pow(&m);
        let z = Node::create(Sink { dev: *dev, w: vec![tensor(*dev, o, &w)] }, &[&y]).pop().unwrap();
        z.backward();
        let g = n.inner_gradient().to_vec();
        let (xr, kr, wr) = (RT::<f64>::from_f32(a, &x), RT::<f64>::from_f32(b, &k), RT::<f64>::from_f32(o, &w));
        let scalar = |s: &Sh| s.is_scalar();
        // positions by building an index tensor
        let pos = RT::<f64> { s: a, x: (0..a.n()).map(|i| i as f64).collect() };
        let mut want = RT::<f64> { s: a, x: vec![0.; a.n()] };
        let mut abs = want.clone();
        o.each(|c, i| {
            let z = [0u32; MD];
            let ca = if scalar(&a) { &z } else { c };
            let cb = if scalar(&b) { &z } else { c };
            let (xv, kv) = (xr.g(ca, i), kr.g(cb, i));
            let d = wr.g(c, i) * kv * xv.powf(kv - 1.);
            let p = pos.g(ca, i) as usize;
            want.x[p] += d;
            abs.x[p] += d.abs();
        });
        for i in 0..a.n() {
            hcore::ensure!((g[i] as f64 - want.x[i]).abs() <= 1e-5 * abs.x[i] + 1e-30, "gradient {} of element {} is {} instead of {}: {:?} to the power {:?} ({:?} and {:?}), incoming {:?}", a.n(), i, g[i], want.x[i], x, k, a, b, w);
        }
        if x.iter().any(|&v| v == 0.) {
            rep.count("with_zero_base");
            rep.distinct(&(a, b));
        }
        Ok(())
    });
    cfg.stage("ties", cfg.q(60_000, 1_000_000), 4., naive, |dev, r, rep| {
        let kind = *r.pick(&["Max", "Min"]);
        let (op, shapes) = gen::op(r, kind, 200);
        let s = shapes[0];
        let d = match op {
            Op::Max(d) | Op::Min(d) => d,
            _ => unreachable!(),
        };
        let sg: f32 = if kind == "Max" { 1. } else { -1. };
        let lo = r.range(-3, 0);
        let data: Vec<f32> = (0..s.n()).map(|_| r.range(lo, lo + 2) as f32).collect();
        let o = op.infer(&shapes).unwrap()[0];
        let w: Vec<f32> = (0..o.n()).map(|_| { let x = r.range(1, 9) as f32; if r.chance(0.5) { -x } else { x } }).collect();
        poison(*dev, &[64, 256], 3, f32::NAN);
        let x = tensor(*dev, s, &data);
        let n = Node::from(&x);
        let y = lazy(&op, &[&n], 0).pop().unwrap();
        let z = Node::create(Sink { dev: *dev, w: vec![tensor(*dev, o, &w)] }, &[&y]).pop().unwrap();
        z.backward();
        let g = RT::<f64>::from_f32(s, &n.inner_gradient().to_vec());
        let xr = RT::<f64>::from_f32(s, &data);
        let wr = RT::<f64>::from_f32(o, &w);
        let mut err = None;
        let mut tied = false;
        o.each(|c, b| {
            let xl = xr.line(c, b, d);
            let gl = g.line(c, b, d);
            let m = xl.iter().fold(f64::NEG_INFINITY, |a, &x| a.max(x * sg as f64)) * sg as f64;
            let hit: Vec<usize> = (0..gl.len()).filter(|&i| gl[i] != 0.).collect();
            tied |= xl.iter().filter(|&&x| x == m).count() > 1;
            if hit.len() != 1 || gl[hit[0]] != wr.g(c, b) || xl[hit[0]] != m {
                err = Some(format!("{:?} on {:?}: line {:?} has gradient {:?}, incoming {}", op, s, xl, gl, wr.g(c, b)));
            }
        });
        if let Some(m) = err {
            return Err(m);
        }
        if tied {
            rep.count("with_ties");
            rep.distinct(&(format!("{:?}", op), s));
        }
        Ok(())
    });
    cfg.finish(
        "random graph operation (uniform over all kinds), shapes, batches, arguments, smooth operand values and incoming gradients, operand gradients preset to non-zero values, recycled buffers filled with NaN; non-trivial: a non-zero derivative; distinct by operation, arguments and shapes",
        &["forward-mode differentiation of the reference model in f64 gives the true derivative", "points within 1e-3 of a kink or a tie are skipped except in stage ties", "softmax cross entropy targets sum to one"],
    )
}
