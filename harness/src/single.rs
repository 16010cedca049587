//! Single operation calls with random operands: values and derivatives against the reference.
use crate::devfn::device_call;
use crate::gen::{self, Vals};
use crate::ops::*;
use crate::prog::L;
use crate::refm::*;
use crate::util::*;
use crate::{check, ensure};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Operator, Shape, Tensor};
use std::cell::RefCell;

/// The methods of tensors, views, or the functions of the device.
pub fn eager_any<'a>(op: &Op, dev: Dev, xs: &[&'a Tensor<'static>], style: u32) -> Vec<Tensor<'a>> {
    if style & 96 == 96 {
        if let Some(y) = device_call(dev, op, xs) {
            return y;
        }
    }
    if style & 32 != 0 {
        eager_views(op, dev, xs, style)
    } else {
        eager(op, xs, style)
    }
}

/// A function of a device called with operands and arguments that need not fit, some of them elsewhere.
pub fn device_fw(dev: Dev, other: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let kind = *r.pick(KINDS);
    let (mut op, mut shapes) = gen::op(r, kind, max);
    if r.chance(0.4) {
        for _ in 0..r.range(1, 2) {
            if r.chance(0.4) {
                gen::mutate_args(r, &mut op);
            } else {
                let k = r.us(shapes.len());
                shapes[k] = gen::mutate_shape(r, shapes[k]);
            }
        }
    }
    if shapes.iter().any(|s| s.size() > 20_000) || matches!(op, Op::Broadcast(_, n) if n > 20_000) {
        return Ok(());
    }
    let want = op.infer(&shapes);
    if want.as_ref().map_or(false, |w| w.iter().map(|s| s.size()).sum::<u64>() > 50_000) {
        return Ok(());
    }
    let data = gen::values(r, &gen::domain(&op, &shapes), &shapes, Vals::Plain);
    // some operands, or the device that is asked, are not the one of the others
    let away: Vec<bool> = match r.us(4) {
        0 => {
            let k = r.us(shapes.len());
            (0..shapes.len()).map(|i| i == k).collect()
        }
        1 if r.chance(0.5) => vec![true; shapes.len()],
        _ => vec![false; shapes.len()],
    };
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).zip(&away).map(|((s, d), a)| tensor(if *a { other } else { dev }, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let what = || format!("the device function for {:?} of {:?} (elsewhere: {:?})", op, shapes, away);
    let mut known = true;
    let got = catch(|| {
        let y = device_call(dev, &op, &refs);
        known = y.is_some();
        y.map_or(vec![], |y| y.iter().map(|y| (Sh::of(y.shape()), y.to_vec())).collect())
    });
    if !known {
        return Ok(());
    }
    match (want, got) {
        (_, Ok(_)) if away.iter().any(|a| *a) => return Err(format!("{} was accepted", what())),
        (None, Ok(y)) => return Err(format!("{} was accepted with result {:?}", what(), y.iter().map(|y| y.0).collect::<Vec<_>>())),
        (Some(w), Err(m)) if away.iter().all(|a| !*a) => return Err(format!("{} must give {:?} but panicked: {}", what(), w, m)),
        (Some(w), Ok(y)) => {
            let rt: Vec<RT<Ev>> = shapes.iter().zip(&data).map(|(s, d)| RT::from_f32(*s, d)).collect();
            let e = op.eval(&rt.iter().collect::<Vec<_>>());
            for (k, (s, v)) in y.iter().enumerate() {
                ensure!(*s == w[k] && s.n() == v.len(), "{} gave {:?} with {} values instead of {:?}", what(), s, v.len(), w[k]);
                check::close(v, &e[k]).map_err(|m| format!("{}: {}", what(), m))?;
            }
            rep.count("device_functions_accepted");
        }
        _ => rep.count(if away.iter().any(|a| *a) { "device_functions_refused_elsewhere" } else { "device_functions_refused" }),
    }
    for ((x, d), s) in xs.iter().zip(&data).zip(&shapes) {
        ensure!(check::same_bits(&x.to_vec(), d) && Sh::of(x.shape()) == *s, "{} changed an operand", what());
    }
    rep.distinct(&(format!("{:?}", op), shapes.clone(), away.clone()));
    Ok(())
}

/// An eager call, or (some of them, with `nodes`) a lazy one.
pub fn value(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str], max: u64, vals: Vals, nodes: bool) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let (op, shapes) = gen::op(r, kind, max);
    let v = if vals == Vals::Int
        && matches!(kind, "Div" | "KDiv" | "Pow" | "PowK" | "KPow" | "Powi" | "Sqrt" | "Ln" | "Tan" | "Exp")
    {
        Vals::Plain
    } else {
        vals
    };
    let data = gen::values(r, &op, &shapes, v);
    let style = r.below(128) as u32;
    let nodes = nodes && r.chance(0.4);
    if r.chance(0.3) {
        poison(dev, &[64, 128, 256, 512, 1024], 2, f32::NAN);
    }
    let want_shapes = match op.infer(&shapes) {
        Some(s) => s,
        None => crate::harness_error!("invalid case {:?} {:?}", op, shapes),
    };
    let xs: Vec<_> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&_> = xs.iter().collect();
    let what = || format!("{:?} on {:?} style {}{}", op, shapes, style, if nodes { " of nodes" } else { "" });
    let ys: Vec<(Sh, Vec<f32>)> = match catch(|| {
        if nodes {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let rn: Vec<&Node> = ns.iter().collect();
            lazy(&op, &rn, style % 4).iter().map(|y| (Sh::of(y.shape()), y.to_vec())).collect()
        } else {
            let ys = eager_any(&op, dev, &refs, style);
            ys.iter().map(|y| (Sh::of(y.shape()), y.to_vec())).collect()
        }
    }) {
        Ok(y) => y,
        Err(m) => return Err(format!("{} panicked: {}", what(), m)),
    };
    ensure!(ys.len() == want_shapes.len(), "{}: {} results", what(), ys.len());
    let rt: Vec<RT<Ev>> = shapes.iter().zip(&data).map(|(s, d)| RT::from_f32(*s, d)).collect();
    let rr: Vec<&RT<Ev>> = rt.iter().collect();
    let want = op.eval(&rr);
    for (k, (y, w)) in ys.iter().zip(&want).enumerate() {
        let (s, got) = y;
        ensure!(*s == want_shapes[k] && w.s == want_shapes[k], "{}: shape of result {}: {:?}, expected {:?}", what(), k, s, want_shapes[k]);
        check::close(got, w).map_err(|m| format!("{} result {}: {}; inputs {:?}", what(), k, m, data))?;
        rep.add("elements_compared", got.len() as u64);
        let ex = w.x.iter().filter(|e| e.e == 0.).count();
        rep.add("elements_compared_exactly", ex as u64);
    }
    rep.count(&format!("op_{}", kind));
    if want.iter().any(|w| w.x.len() > 1) {
        rep.distinct(&(kind, shapes.clone(), format!("{:?}", op)));
    }
    rep.sample(|| format!("{} -> {:?}", what(), ys[0].1.iter().take(8).collect::<Vec<_>>()));
    Ok(())
}

/// Kinds whose result is determined by IEEE arithmetic even for zeros of either sign, infinities and NaN.
pub const SPECIAL_KINDS: &[&str] = &[
    "Add", "Sub", "Mul", "Div", "AddK", "SubK", "MulK", "DivK", "KAdd", "KSub", "KMul", "KDiv", "Neg", "Abs", "Sqrt", "Sum", "Mean",
    "BatchSum", "SliceSum", "Matmul", "Transpose", "TriL", "TriU", "Slice", "Split", "Concat", "Reshape", "Flatten", "Broadcast", "Pick",
    "BatchSlice", "BatchSplit", "BatchPick", "BatchConcat", "Max", "Min",
];
/// Operands with infinities, NaN, zeros of both signs, subnormals: moved values keep their bits, arithmetic follows IEEE.
pub fn special(dev: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let kind = *r.pick(SPECIAL_KINDS);
    let (op, shapes) = gen::op(r, kind, max);
    let one = matches!(kind, "Add" | "Sub" | "Mul" | "Div" | "AddK" | "SubK" | "MulK" | "DivK" | "KAdd" | "KSub" | "KMul" | "KDiv" | "Sqrt");
    let sums = matches!(kind, "Sum" | "Mean" | "BatchSum" | "SliceSum" | "Matmul");
    let odd = if sums { *r.pick(&[0.02, 0.1, 0.5]) } else { 0.4 };
    let extreme = matches!(kind, "Max" | "Min");
    let data: Vec<Vec<f32>> = shapes
        .iter()
        .map(|s| {
            (0..s.n())
                .map(|_| {
                    if extreme && r.chance(0.9) {
                        // often no finite value in a line
                        *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN])
                    } else if extreme {
                        r.range(-4, 4) as f32
                    } else if r.chance(odd) {
                        *r.pick(&[0., -0., f32::INFINITY, f32::NEG_INFINITY, f32::NAN])
                    } else if sums {
                        r.range(-4, 4) as f32
                    } else {
                        let x = f32::from_bits(r.next() as u32);
                        if one && r.chance(0.5) {
                            r.range(-4, 4) as f32
                        } else {
                            x
                        }
                    }
                })
                .collect()
        })
        .collect();
    let style = r.below(128) as u32;
    let xs: Vec<_> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&_> = xs.iter().collect();
    let what = || format!("{:?} on {:?} style {}", op, shapes, style);
    let ys: Vec<Vec<f32>> = match catch(|| {
        let ys = eager_any(&op, dev, &refs, style);
        ys.iter().map(|y| y.to_vec()).collect()
    }) {
        Ok(y) => y,
        Err(m) => return Err(format!("{} panicked: {}", what(), m)),
    };
    let rt: Vec<RT<f64>> = shapes.iter().zip(&data).map(|(s, d)| RT { s: *s, x: d.iter().map(|&x| x as f64).collect() }).collect();
    let rr: Vec<&RT<f64>> = rt.iter().collect();
    let want = op.eval(&rr);
    ensure!(ys.len() == want.len(), "{}: {} results", what(), ys.len());
    for (k, (y, w)) in ys.iter().zip(&want).enumerate() {
        ensure!(y.len() == w.x.len(), "{}: {} values", what(), y.len());
        for (i, (&g, &w)) in y.iter().zip(&w.x).enumerate() {
            let e = w as f32;
            let tol = match kind {
                "Mean" => e.abs() * 1e-6,
                "DivK" => (e.abs() * 3e-7).max(3e-45),
                _ => 0.,
            };
            let ok = if w.is_nan() { g.is_nan() } else { g == e || (g - e).abs() <= tol };
            // values that are only moved keep the sign of zero
            let sign = one || sums || extreme || e != 0. || matches!(kind, "TriL" | "TriU") || g.is_sign_negative() == w.is_sign_negative();
            ensure!(ok && sign, "{} result {} element {} is {:?}, expected {:?}; inputs {:?}", what(), k, i, g, e, data);
            rep.count(match () {
                _ if w.is_nan() => "special_nan",
                _ if w.is_infinite() => "special_infinite",
                _ if w == 0. => "special_zero",
                _ => "special_finite",
            });
        }
    }
    rep.count(&format!("op_{}", kind));
    rep.distinct(&(kind, shapes.clone(), format!("{:?}", op)));
    Ok(())
}

/// Finite numbers of every magnitude: subnormal, near the largest, small integers, halves.
pub fn any_finite(r: &mut Rng) -> f32 {
    match r.us(8) {
        0 => f32::from_bits(1 + (r.next() as u32) % 0x7f_ffff) * *r.pick(&[1., -1.]),
        1 => (f32::MAX * (r.uni(0.1, 1.) as f32)) * *r.pick(&[1., -1.]),
        2 => r.range(-30, 30) as f32,
        3 => r.range(-40, 40) as f32 * 0.5,
        4 | 5 => {
            let x = f32::from_bits(r.next() as u32);
            if x.is_finite() {
                x
            } else {
                1.
            }
        }
        _ => r.uni(-12., 12.) as f32,
    }
}
pub const EDGE_KINDS: &[&str] = &[
    "Pow", "PowK", "KPow", "Powi", "Sin", "Cos", "Tan", "Exp", "Ln", "Tanh", "Sigmoid", "Softplus", "Relu", "Lrelu", "Prelu", "Elu",
];
/// An elementwise operation with exponents of every usual kind.
pub fn edge_op(r: &mut Rng, kind: &str, max: u64) -> (Op, Vec<Sh>) {
    let (op, shapes) = gen::op(r, kind, max);
    let usual = |r: &mut Rng| {
        let k = match r.us(4) {
            0 => r.range(-12, 12) as f32 / *r.pick(&[1., 2., 3., 4., 5., 6., 8., 10.]),
            1 => 1. / (r.range(1, 12) as f32) * *r.pick(&[1., -1.]),
            2 => *r.pick(&[0.5, -0.5, 1.5, 0.25, 2. / 3., 1. / 3., 0., 1., 2., -1.]),
            _ => r.uni(-4., 4.) as f32,
        };
        k
    };
    match op {
        Op::PowK(_) => (Op::PowK(usual(r)), shapes),
        Op::KPow(_) => (Op::KPow(if r.chance(0.3) { -usual(r).abs() } else { usual(r).abs() }), shapes),
        op => (op, shapes),
    }
}
/// Elementwise functions on any finite number: domains, tails, subnormal and huge operands.
pub fn edges(dev: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let kind = *r.pick(EDGE_KINDS);
    let (op, shapes) = edge_op(r, kind, max);
    let data: Vec<Vec<f32>> = shapes.iter().map(|s| (0..s.n()).map(|_| any_finite(r)).collect()).collect();
    let style = r.below(128) as u32;
    let xs: Vec<_> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&_> = xs.iter().collect();
    let what = || format!("{:?} on {:?} style {}", op, shapes, style);
    let y = match catch(|| eager_any(&op, dev, &refs, style)[0].to_vec()) {
        Ok(y) => y,
        Err(m) => return Err(format!("{} panicked: {}", what(), m)),
    };
    let rt: Vec<RT<f64>> = shapes.iter().zip(&data).map(|(s, d)| RT { s: *s, x: d.iter().map(|&x| x as f64).collect() }).collect();
    let rr: Vec<&RT<f64>> = rt.iter().collect();
    let want = &op.eval(&rr)[0].x;
    ensure!(y.len() == want.len(), "{}: {} values", what(), y.len());
    for (i, (&g, &w)) in y.iter().zip(want).enumerate() {
        let (rel, abs) = match &op {
            Op::Powi(n) => {
                // repeated multiplication may leave the range on its way
                let p = (n.unsigned_abs() as f64) * (data[0][i].abs() as f64).ln();
                if p.abs() > 86. || n.unsigned_abs() > 100 {
                    rep.count("edge_out_of_range");
                    continue;
                }
                (1e-4, 0.)
            }
            Op::Pow | Op::PowK(_) | Op::KPow(_) | Op::Exp => (1e-4, 0.),
            Op::Sin | Op::Cos | Op::Tan => (1e-5, 1e-6),
            Op::Elu(k) => (1e-5, 1e-6 * k.abs().max(1.) as f64),
            Op::Relu | Op::Lrelu | Op::Prelu(_) => (1e-6, 0.),
            _ => (1e-5, 1e-6),
        };
        let g = g as f64;
        let ok = if w.is_nan() {
            g.is_nan()
        } else if w.abs() > 3.4e38 {
            g == w || g.abs() > 3.3e38 && (g > 0.) == (w > 0.)
        } else {
            (g - w).abs() <= w.abs() * rel + abs + 2e-38 || w.abs() > 3.3e38 && g.is_infinite() && (g > 0.) == (w > 0.)
        };
        let at: Vec<f32> = data.iter().map(|d| d[i % d.len()]).collect();
        ensure!(ok, "{} element {} is {:?}, expected {:?}; operands near {:?}", what(), i, g, w, at);
        rep.count(match () {
            _ if w.is_nan() => "edge_nan",
            _ if w.is_infinite() => "edge_infinite",
            _ if w.abs() < 1e-37 => "edge_tiny",
            _ => "edge_finite",
        });
    }
    rep.count(&format!("edge_{}", kind));
    rep.distinct(&(kind, shapes.clone(), format!("{:?}", op)));
    Ok(())
}

/// Hands every operand the gradient it was told to, so that any cotangent can be sent into an operation.
pub struct Sink {
    pub dev: Dev,
    pub w: Vec<Tensor<'static>>,
}
impl<'arg> Operator<'arg, 'static> for Sink {
    fn name(&self) -> String {
        "Sink".to_string()
    }
    fn device(&self) -> &'static Device<'static> {
        self.dev
    }
    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
        vec![Sh::scalar().real()]
    }
    fn forward(&self, _x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        y[0].alloc();
        y[0].reset(0.);
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], _gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        for (g, w) in gx.iter().zip(&self.w) {
            *g.borrow_mut() += w;
        }
    }
}

pub fn cotangent(r: &mut Rng, n: usize) -> Vec<f32> {
    match r.us(6) {
        0 => {
            // a single element
            let k = r.us(n);
            (0..n).map(|i| if i == k { 1. } else { 0. }).collect()
        }
        1 => vec![1.; n],
        _ => (0..n).map(|_| r.uni(-2., 2.) as f32).collect(),
    }
}

/// Unit of rounding times the number of terms that meet in a gradient element of direction `k`.
fn terms(op: &Op, shapes: &[Sh], y: &[RT<AD<L>>], k: usize) -> f64 {
    // every term added in f32 may round off one unit of the sum of magnitudes
    let kind = op.kind();
    let inner = match kind.as_str() {
        "Lse" | "LnSoftmax" | "Softmax" | "Sce" | "SparseSce" => shapes.iter().map(|s| s.n()).max().unwrap_or(1),
        k if CONTRIB_KINDS.contains(&k) => shapes.iter().map(|s| s.n()).max().unwrap_or(1),
        _ => 1,
    };
    let n = y.iter().map(|y| y.x.iter().filter(|e| e.a[k] != 0.).count()).sum::<usize>();
    U * n.max(inner) as f64
}

/// For each direction (flat position over all operands): derivative of the weighted sum of the results, sum of
/// magnitudes, rounding of its terms.
pub fn directional(op: &Op, shapes: &[Sh], data: &[Vec<f32>], w: &[Vec<f32>], dirs: &[usize]) -> Vec<(usize, f64, f64, f64)> {
    let mut want: Vec<(usize, f64, f64, f64)> = vec![];
    for ch in dirs.chunks(L) {
        let mut base = 0;
        let rt: Vec<RT<AD<L>>> = shapes
            .iter()
            .zip(data)
            .map(|(s, d)| {
                let mut t = RT::<AD<L>>::from_f32(*s, d);
                for (k, &dir) in ch.iter().enumerate() {
                    if dir >= base && dir < base + s.n() {
                        t.x[dir - base].d[k] = 1.;
                        t.x[dir - base].a[k] = 1.;
                    }
                }
                base += s.n();
                t
            })
            .collect();
        let rr: Vec<&RT<AD<L>>> = rt.iter().collect();
        let y = op.eval(&rr);
        for (k, &dir) in ch.iter().enumerate() {
            let (mut g, mut a) = (0f64, 0f64);
            for (yt, wt) in y.iter().zip(w) {
                for (e, c) in yt.x.iter().zip(wt) {
                    g += e.d[k] * *c as f64;
                    a += e.a[k] * c.abs() as f64;
                }
            }
            want.push((dir, g, a, terms(op, shapes, &y, k)));
        }
    }
    want
}

pub fn vjp(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str], max: u64, vals: Vals) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let (op, shapes) = gen::op(r, kind, max);
    if !op.lazy() {
        return Ok(());
    }
    let data = gen::values(r, &op, &shapes, vals);
    let want_shapes = op.infer(&shapes).unwrap();
    let total: usize = shapes.iter().map(|s| s.n()).sum();
    // reference: in chunks of L directions
    let mut dirs: Vec<usize> = (0..total).collect();
    // of many operand elements some are judged on their own, all of them in L signed groups
    let groups: Vec<(usize, f64)> = if total > 8 * L {
        r.shuffle(&mut dirs);
        dirs.truncate(if total > 8000 { 2 * L } else { 8 * L });
        (0..total).map(|_| (r.us(L), if r.chance(0.5) { 1. } else { -1. })).collect()
    } else {
        vec![]
    };
    let w: Vec<Vec<f32>> = want_shapes.iter().map(|s| cotangent(r, s.n())).collect();
    let v: Vec<Vec<f32>> = shapes.iter().map(|s| (0..s.n()).map(|_| r.range(-3, 3) as f32).collect()).collect();
    take_kink();
    // the operands are exact
    STEEP.with(|k| k.set(if vals == Vals::Wide { 1e30 } else { 60. }));
    let want = directional(&op, &shapes, &data, &w, &dirs);
    let mut sums: Vec<(f64, f64)> = vec![];
    // the most terms that meet in one gradient element, of the elements looked at
    let mut most = want.iter().map(|w| w.3).fold(0f64, f64::max);
    if !groups.is_empty() {
        let ids = match &op {
            Op::Pick(ids, _) | Op::BatchPick(ids) | Op::SparseSce(ids, _) => ids.len(),
            _ => 1,
        };
        // one element of every operand (operands that are shared by all outputs may be missed by the sample)
        let rt: Vec<RT<AD<L>>> = shapes
            .iter()
            .zip(&data)
            .enumerate()
            .map(|(k, (s, d))| {
                let mut t = RT::<AD<L>>::from_f32(*s, d);
                if k < L {
                    let i = r.us(s.n());
                    t.x[i].d[k] = 1.;
                    t.x[i].a[k] = 1.;
                }
                t
            })
            .collect();
        let rr: Vec<&RT<AD<L>>> = rt.iter().collect();
        let y = op.eval(&rr);
        for k in 0..L {
            most = most.max(terms(&op, &shapes, &y, k));
        }
        most *= ids as f64;
        let mut base = 0;
        let rt: Vec<RT<AD<L>>> = shapes
            .iter()
            .zip(&data)
            .map(|(s, d)| {
                let mut t = RT::<AD<L>>::from_f32(*s, d);
                for (x, (g, sign)) in t.x.iter_mut().zip(&groups[base..]) {
                    x.d[*g] = *sign;
                    x.a[*g] = 1.;
                }
                base += s.n();
                t
            })
            .collect();
        let rr: Vec<&RT<AD<L>>> = rt.iter().collect();
        let y = op.eval(&rr);
        for k in 0..L {
            let (mut g, mut a) = (0f64, 0f64);
            for (yt, wt) in y.iter().zip(&w) {
                for (e, c) in yt.x.iter().zip(wt) {
                    g += e.d[k] * *c as f64;
                    a += e.a[k] * c.abs() as f64;
                }
            }
            sums.push((g, a));
        }
    }
    STEEP.with(|k| k.set(60.));
    if take_kink() {
        rep.count("skipped_not_differentiable");
        return Ok(());
    }
    let cut = |v: &Vec<Vec<f32>>| v.iter().map(|v| v.iter().take(4000).copied().collect::<Vec<_>>()).collect::<Vec<_>>();
    let what = || format!("{:?} on {:?} inputs {:?} cotangents {:?}", op, shapes, cut(&data), cut(&w));
    if r.chance(0.5) {
        poison(dev, &[64, 128, 256, 512], 4, f32::NAN);
    }
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let got: Vec<Vec<f32>> = match catch(|| {
        let ns: Vec<Node> = xs.iter().map(|x| Node::from(x)).collect();
        let refs: Vec<&Node> = ns.iter().collect();
        // with intermediate nodes (owned operand styles) the preset gradients are not on the same node
        let ys = lazy(&op, &refs, 0);
        if r.chance(0.3) {
            ys[0].forward();
        }
        let mut sinks: Vec<&Node> = vec![];
        let mut cot = vec![];
        // outputs without any consumer get no contribution and count as zero
        let drop_zero = r.chance(0.5);
        for (k, y) in ys.iter().enumerate() {
            if drop_zero && ys.len() > 1 && w[k].iter().all(|&c| c == 0.) {
                continue;
            }
            sinks.push(y);
            cot.push(tensor(dev, want_shapes[k], &w[k]));
        }
        for (k, x) in ns.iter().enumerate() {
            sinks.push(x);
            cot.push(tensor(dev, shapes[k], &v[k]));
        }
        let z = Node::create(Sink { dev, w: cot }, &sinks).pop().unwrap();
        // if an output is left out the operation is reached through its other outputs only
        z.backward();
        ns.iter().map(|n| n.inner_gradient().to_vec()).collect()
    }) {
        Ok(g) => g,
        Err(m) => return Err(format!("{} panicked: {}", what(), m)),
    };
    let reached = w.iter().any(|c| c.iter().any(|&x| x != 0.));
    let rel = if CONTRIB_KINDS.contains(&kind) { 1e-4 } else { 1e-5 };
    // repeated multiplication rounds every time
    let rel = if let Op::Powi(k) = op { rel + 2.5 * U * (k as f64).abs() } else { rel };
    let mut nonzero = false;
    for (dir, g, a, round) in want {
        let (mut k, mut i) = (0, dir);
        while i >= shapes[k].n() {
            i -= shapes[k].n();
            k += 1;
        }
        let e = if reached { g } else { 0. } + v[k][i] as f64;
        let tol = (rel + round) * a + 1e-6 * (v[k][i].abs() as f64 + g.abs());
        let q = got[k][i] as f64;
        ensure!((q - e).abs() <= tol, "{} operand {} element {}: gradient grew by {}, expected {} (tolerance {:e})", what(), k, i, q - v[k][i] as f64, g, tol);
        rep.count("derivatives_compared");
        nonzero |= g != 0.;
    }
    if !sums.is_empty() {
        let mut q = [0f64; L];
        let mut size = [0f64; L];
        for ((g, sign), (x, v)) in groups.iter().zip(got.iter().flatten().zip(v.iter().flatten())) {
            q[*g] += sign * (*x as f64 - *v as f64);
            size[*g] += x.abs() as f64 + 1.;
        }
        for k in 0..L {
            let (g, a) = sums[k];
            let g = if reached { g } else { 0. };
            let tol = (rel + most) * a + 1e-6 * (size[k] + g.abs());
            ensure!((q[k] - g).abs() <= tol, "{:?} on {:?}: signed sum {} of all gradient elements is {}, expected {} (tolerance {:e})", op, shapes, k, q[k], g, tol);
            rep.count("derivative_groups_compared");
        }
    }
    rep.count(&format!("op_{}", kind));
    if nonzero {
        rep.distinct(&(format!("{:?}", op), shapes.clone()));
    }
    rep.sample(|| what());
    Ok(())
}
