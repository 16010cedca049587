//! Random operations, shapes, arguments and values.
use crate::ops::Op::{self, *};
use crate::refm::*;
use crate::util::Rng;

/// Log-uniform in lo..=hi.
pub fn tail(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    (lo as f64 * ((hi + 1) as f64 / lo as f64).powf(r.uni(0., 1.))) as u64
}
/// Mostly small, sometimes as long as `max` elements allow: what only happens to long lines has to be seen too.
pub fn extent_to(r: &mut Rng, max: u64) -> u32 {
    match r.us(24) {
        0..=4 => 1,
        5..=9 => 2,
        10..=13 => 3,
        14..=16 => 4,
        17..=20 => r.range(5, 9) as u32,
        21 => r.range(10, 70) as u32,
        _ => tail(r, 5, max.max(10)) as u32,
    }
}
pub fn extent(r: &mut Rng) -> u32 {
    extent_to(r, 140)
}
pub fn batch_to(r: &mut Rng, max: u64) -> u32 {
    match r.us(15) {
        0..=5 => 1,
        6..=8 => 2,
        9..=10 => 3,
        11..=12 => r.range(4, 6) as u32,
        13 => r.range(7, 12) as u32,
        _ => tail(r, 7, max.max(40)) as u32,
    }
}
pub fn batch(r: &mut Rng) -> u32 {
    batch_to(r, 40)
}
/// An element limit: mostly `usual`, with probability p up to `rare`.
pub fn limit(r: &mut Rng, usual: u64, rare: u64, p: f64) -> u64 {
    if r.chance(p) {
        tail(r, usual, rare)
    } else {
        usual
    }
}
/// Reduces extents until the shape has at most `max` elements.
pub fn shrink(r: &mut Rng, mut s: Sh, max: u64) -> Sh {
    while s.size() > max {
        let k = r.us(MD + 1);
        if k == MD {
            s.b = (s.b / 2).max(1);
        } else {
            s.d[k] = (s.d[k] / 2).max(1);
        }
    }
    s
}
pub fn depth(r: &mut Rng) -> usize {
    *r.pick(&[0, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8])
}
pub fn shape(r: &mut Rng, max: u64) -> Sh {
    let n = depth(r);
    let mut d = [1; MD];
    for i in 0..n {
        d[i] = extent_to(r, max);
    }
    let b = batch_to(r, max / 2);
    shrink(r, Sh { d, b }, max)
}
/// A batch that goes with `b`: equal, 1, or anything if b is 1.
pub fn mate_batch(r: &mut Rng, b: u32) -> u32 {
    if b == 1 {
        batch(r)
    } else if r.chance(0.6) {
        b
    } else {
        1
    }
}
pub fn small_k(r: &mut Rng) -> f32 {
    if r.chance(0.12) {
        return nonzero_k(r);
    }
    let k = r.range(-24, 24) as f32 / 8.;
    if k.abs() < 0.3 {
        1.5
    } else {
        k
    }
}
/// 1, -1, tiny or large.
fn nonzero_k(r: &mut Rng) -> f32 {
    *r.pick(&[1., 1., 1., -1., 2., 1e-3, -1e-4, 250., -100.])
}
/// Also the neutral and absorbing constants.
pub fn any_k(r: &mut Rng) -> f32 {
    match r.us(12) {
        0 => 0.,
        1 => -0.,
        _ => small_k(r),
    }
}
fn dim_of(r: &mut Rng, s: &Sh) -> u32 {
    // mostly a real dimension, sometimes beyond the depth
    if s.depth() > 0 && r.chance(0.85) {
        r.us(s.depth()) as u32
    } else {
        r.us(MD) as u32
    }
}
/// Number of operands or pieces: mostly few, sometimes many.
pub fn many(r: &mut Rng, few: i64) -> usize {
    if r.chance(0.08) {
        tail(r, 6, 70) as usize
    } else {
        r.range(1, few) as usize
    }
}
/// Index lists, also those that invite a shortcut: sorted, constant, consecutive.
pub fn ids(r: &mut Rng, n: usize, below: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).map(|_| r.below(below as u64) as u32).collect();
    match r.us(12) {
        0 | 1 => v.sort_unstable(),
        2 => {
            v.sort_unstable();
            v.reverse();
        }
        3 => {
            let k = r.below(below as u64) as u32;
            v.iter_mut().for_each(|x| *x = k);
        }
        4 => {
            let k = r.below(below as u64) as u32;
            (0..n).for_each(|i| v[i] = ((k as u64 + i as u64) % below as u64) as u32);
        }
        5 if n > 1 => {
            // constant or consecutive but for one
            let (k, step) = (r.below(below as u64), r.below(2));
            (0..n).for_each(|i| v[i] = ((k + i as u64 * step) % below as u64) as u32);
            let at = r.us(n);
            v[at] = r.below(below as u64) as u32;
        }
        _ => (),
    }
    v
}

/// Any shape with the same number of elements.
pub fn same_size(r: &mut Rng, n: u64) -> Sh {
    let mut rest = n;
    let mut f = vec![];
    let mut p = 2;
    while rest > 1 {
        if rest % p == 0 {
            f.push(p as u32);
            rest /= p;
        } else {
            p += 1;
        }
    }
    let mut s = Sh::scalar();
    let depth = r.range(1, MD as i64) as usize;
    for p in f {
        let k = r.us(depth + 1);
        if k == depth {
            s.b *= p;
        } else {
            s.d[k] *= p;
        }
    }
    s
}

/// A valid operation of this kind with operand shapes of at most `max` elements each.
pub fn op(r: &mut Rng, kind: &str, max: u64) -> (Op, Vec<Sh>) {
    let x = shape(r, max);
    let bin = |r: &mut Rng, x: Sh| -> Vec<Sh> {
        let y = x.with_b(mate_batch(r, x.b));
        match r.us(4) {
            0 => {
                // scalar left
                vec![Sh::scalar().with_b(y.b), x]
            }
            1 => vec![x, Sh::scalar().with_b(y.b)],
            _ => {
                if r.chance(0.5) {
                    vec![x, y]
                } else {
                    vec![y, x]
                }
            }
        }
    };
    let lim = |v: Vec<Sh>, r: &mut Rng| -> Vec<Sh> {
        // batch-1 operands may be combined with larger batches: keep the result small
        let bb = v.iter().map(|s| s.b).max().unwrap() as u64;
        let vol = v.iter().map(|s| s.vol()).max().unwrap();
        if bb * vol <= 4 * max {
            v
        } else {
            let s = shrink(r, v[0].with_b(1), max / 16 + 1);
            let _ = s;
            v.iter().map(|s| s.with_b(s.b.min(2))).collect::<Vec<_>>()
        }
    };
    match kind {
        "Add" | "Sub" | "Mul" | "Div" | "Pow" => {
            let v = bin(r, x);
            let v = lim(v, r);
            let v = if bin_ok(&v) { v } else { vec![x, x] };
            (
                match kind {
                    "Add" => Add,
                    "Sub" => Sub,
                    "Mul" => Mul,
                    "Div" => Div,
                    _ => Pow,
                },
                v,
            )
        }
        "AddK" => (AddK(any_k(r)), vec![x]),
        "SubK" => (SubK(any_k(r)), vec![x]),
        "MulK" => (MulK(any_k(r)), vec![x]),
        "DivK" => (DivK(small_k(r)), vec![x]),
        "KAdd" => (KAdd(any_k(r)), vec![x]),
        "KSub" => (KSub(any_k(r)), vec![x]),
        "KMul" => (KMul(any_k(r)), vec![x]),
        "KDiv" => (KDiv(any_k(r)), vec![x]),
        "PowK" => {
            let k = if r.chance(0.6) { *r.pick(&[2., 3., 0.5, 1., -1., -0.5, 2.5, -2., 0.]) } else { r.uni(-4., 4.) as f32 };
            (PowK(k), vec![x])
        }
        "KPow" => (KPow(r.uni(0.25, 3.) as f32), vec![x]),
        "Powi" => {
            let k = match r.us(10) {
                0..=6 => *r.pick(&[0, 1, 2, 3, 4, 5, -1, -2, -3, 7]),
                7 => r.range(-40, 40) as i32,
                8 => r.range(-3000, 3000) as i32,
                _ => r.range(6, 20) as i32,
            };
            (Powi(k), vec![x])
        }
        "Neg" => (Neg, vec![x]),
        "Sqrt" => (Sqrt, vec![x]),
        "Abs" => (Abs, vec![x]),
        "Sin" => (Sin, vec![x]),
        "Cos" => (Cos, vec![x]),
        "Tan" => (Tan, vec![x]),
        "Exp" => (Exp, vec![x]),
        "Ln" => (Ln, vec![x]),
        "Tanh" => (Tanh, vec![x]),
        "Sigmoid" => (Sigmoid, vec![x]),
        "Softplus" => (Softplus, vec![x]),
        "Relu" => (Relu, vec![x]),
        "Lrelu" => (Lrelu, vec![x]),
        "Prelu" => (Prelu(if r.chance(0.5) { *r.pick(&[0.25, -0.5, 0., 1.5, 1., -1.]) } else { r.uni(-2., 2.) as f32 }), vec![x]),
        "Elu" => (Elu(if r.chance(0.5) { *r.pick(&[1., 0.5, 2., 0., -1.]) } else { r.uni(-2., 3.) as f32 }), vec![x]),
        "Sum" => (Sum(dim_of(r, &x)), vec![x]),
        "Max" => (Max(dim_of(r, &x)), vec![x]),
        "Min" => (Min(dim_of(r, &x)), vec![x]),
        "Mean" => (Mean(dim_of(r, &x)), vec![x]),
        "Lse" => (Lse(dim_of(r, &x)), vec![x]),
        "LnSoftmax" => (LnSoftmax(dim_of(r, &x)), vec![x]),
        "Softmax" => (Softmax(dim_of(r, &x)), vec![x]),
        "Broadcast" => {
            let d = r.us(MD) as u32;
            let x = x.with(d, 1);
            let n = extent_to(r, max).min((4 * max / x.size()).max(1) as u32);
            (Broadcast(d, n), vec![x])
        }
        "Sce" => {
            let t = x.with_b(mate_batch(r, x.b));
            let v = lim(if r.chance(0.5) { vec![x, t] } else { vec![t, x] }, r);
            let d = dim_of(r, &x);
            if v[0].compat(&v[1]) {
                (Sce(d), v)
            } else {
                (Sce(d), vec![x, x])
            }
        }
        "SparseSce" | "Pick" => {
            let d = dim_of(r, &x);
            let n = if x.b == 1 {
                batch_to(r, 70)
            } else if r.chance(0.6) {
                x.b
            } else {
                1
            };
            let n = n.min((4 * max / x.vol()).max(1) as u32);
            let n = if x.b != 1 && n != 1 { x.b } else { n };
            let i = ids(r, n as usize, x.at(d));
            (if kind == "Pick" { Pick(i, d) } else { SparseSce(i, d) }, vec![x])
        }
        "Matmul" => {
            let e = |r: &mut Rng| -> u32 {
                match r.us(8) {
                    0..=3 => r.range(1, 4) as u32,
                    4..=5 => r.range(1, if max > 200 { 19 } else { 6 }) as u32,
                    _ => tail(r, 5, max.max(10)) as u32,
                }
            };
            let (mut m, mut k, mut n) = (e(r), e(r), e(r));
            // the cheapest extents to shorten
            while (m * k).max(k * n).max(m * n) as u64 > max || m as u64 * k as u64 * n as u64 > 30 * max {
                let i = r.us(3);
                let q = [&mut m, &mut k, &mut n];
                for (j, q) in q.into_iter().enumerate() {
                    if i == j {
                        *q = (*q / 2).max(1);
                    }
                }
            }
            let most = (30 * max / (m as u64 * k as u64 * n as u64)).clamp(1, 40) as u32;
            let b = batch(r).min(most);
            let bm = mate_batch(r, b).min(most);
            let bm = if b == 1 || bm == 1 || bm == b { bm } else { b };
            (Matmul, vec![Sh::new(&[m, k], b), Sh::new(&[k, n], bm)])
        }
        "Transpose" => {
            let s = Sh::new(&[extent_to(r, max), extent_to(r, max)], batch(r));
            (Transpose, vec![shrink(r, s, max)])
        }
        "TriL" | "TriU" => {
            let mut n = if r.chance(0.8) { r.range(1, 9) } else { r.range(10, 200) } as u32;
            while (n * n) as u64 > max {
                n -= 1;
            }
            let b = batch(r).min((max / (n * n) as u64).max(1) as u32);
            let k = match r.us(12) {
                0 => u32::MAX - r.below(3) as u32,
                1 => n,
                2 => 1 << 31,
                _ => r.below(n as u64 + 1) as u32,
            };
            (if kind == "TriL" { TriL(k) } else { TriU(k) }, vec![Sh::new(&[n, n], b)])
        }
        "Slice" => {
            let d = dim_of(r, &x);
            let n = x.at(d) as u64;
            let l = r.below(n) as u32;
            let u = l + 1 + r.below(n - l as u64) as u32;
            (Slice(d, l, u), vec![x])
        }
        "Split" => {
            let d = dim_of(r, &x);
            let n = many(r, 5) as u32;
            let k = if r.chance(0.9) { r.range(1, 3) as u32 } else { tail(r, 4, (max / n as u64).max(4)) as u32 };
            let x = x.with(d, 1);
            let x = shrink(r, x, (max / (n * k) as u64).max(1)).with(d, n * k);
            (Split(d, n), vec![x])
        }
        "Concat" => {
            let n = many(r, 5);
            let d = dim_of(r, &x);
            let x = shrink(r, x, if n > 5 { (max / 8).max(1) } else { (max / 2).max(1) });
            let bb = x.b;
            let mut v = vec![];
            for _ in 0..n {
                let e = extent(r).min((max / (x.size() / x.at(d) as u64).max(1)).max(1) as u32);
                let s = x.with(d, e);
                v.push(if r.chance(0.3) { s.with_b(1) } else { s.with_b(bb) });
            }
            (Concat(d), v)
        }
        "Reshape" => {
            let s = same_size(r, x.size());
            (Reshape(s), vec![x])
        }
        "Flatten" => (Flatten, vec![x]),
        "BatchSum" => (BatchSum, vec![x]),
        "BatchMean" => (BatchMean, vec![x]),
        "BatchSlice" => {
            let l = r.below(x.b as u64) as u32;
            let u = l + 1 + r.below((x.b - l) as u64) as u32;
            (BatchSlice(l, u), vec![x])
        }
        "BatchSplit" => {
            let n = many(r, 4) as u32;
            let k = r.range(1, 3) as u32;
            let x = shrink(r, x.with_b(1), (max / (n * k) as u64).max(1)).with_b(n * k);
            (BatchSplit(n), vec![x])
        }
        "BatchPick" => {
            let n = many(r, 6);
            (BatchPick(ids(r, n, x.b)), vec![x])
        }
        "BatchConcat" => {
            let n = many(r, 5);
            let x = if n > 5 { shrink(r, x, (max / 8).max(1)) } else { x };
            let v = (0..n)
                .map(|_| {
                    let b = batch(r).min((max / x.vol()).max(1) as u32);
                    x.with_b(b)
                })
                .collect();
            (BatchConcat, v)
        }
        "SliceSum" => {
            let n = many(r, 5);
            let x = if n > 5 { shrink(r, x, (max / 4).max(1)) } else { x };
            let v = (0..n)
                .map(|_| {
                    let b = if r.chance(0.7) { x.b } else { 1 };
                    if r.chance(0.15) {
                        Sh::scalar().with_b(b)
                    } else {
                        x.with_b(b)
                    }
                })
                .collect();
            (SliceSum, v)
        }
        "BatchNorm" => {
            let x = if x.b < 2 { shrink(r, x, max / 3 + 1).with_b(3) } else { x };
            let g = if r.chance(0.3) { Sh::scalar() } else { x.with_b(1) };
            let b = if r.chance(0.3) { Sh::scalar() } else { x.with_b(1) };
            (BatchNorm(*r.pick(&[0.125, 0.5, 0.01]), r.chance(0.85)), vec![x, g, b])
        }
        "LayerNorm" => {
            let g = if r.chance(0.3) { Sh::scalar() } else { x.with_b(if r.chance(0.5) { 1 } else { x.b }) };
            let b = if r.chance(0.3) { Sh::scalar() } else { x.with_b(1) };
            (LayerNorm(*r.pick(&[0.125, 0.5, 0.01])), vec![x, g, b])
        }
        "Dropout" => {
            if r.chance(0.5) {
                (Dropout(*r.pick(&[0.0, 0.5, 1.5]), false), vec![x])
            } else {
                (Dropout(*r.pick(&[1.0, 1.5]), true), vec![x])
            }
        }
        "DropoutDim" => {
            let d = dim_of(r, &x);
            if r.chance(0.5) {
                (DropoutDim(d, *r.pick(&[0.0, 0.5, 1.5]), false), vec![x])
            } else {
                (DropoutDim(d, *r.pick(&[1.0, 1.5]), true), vec![x])
            }
        }
        k => crate::harness_error!("unknown kind {}", k),
    }
}
fn bin_ok(v: &[Sh]) -> bool {
    crate::ops::bin_rule(&v[0], &v[1]).is_some()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vals {
    /// arbitrary values of ordinary magnitude
    Plain,
    /// away from kinks and ties (for derivatives)
    Smooth,
    /// small integers
    Int,
    /// any magnitude, zeros
    Wide,
}

fn one(r: &mut Rng, v: Vals) -> f32 {
    match v {
        Vals::Plain => match r.us(10) {
            0 => r.range(-3, 3) as f32,
            1 => r.uni(-20., 20.) as f32,
            2 => r.uni(-0.01, 0.01) as f32,
            _ => r.uni(-3., 3.) as f32,
        },
        Vals::Smooth => {
            let x = r.uni(0.1, 2.5) as f32;
            if r.chance(0.5) {
                -x
            } else {
                x
            }
        }
        Vals::Int => r.range(-4, 4) as f32,
        Vals::Wide => {
            let x = 10f64.powf(r.uni(-8., 8.)) as f32;
            match r.us(6) {
                0 => 0.,
                1 | 2 => -x,
                _ => x,
            }
        }
    }
}
/// Values of any magnitude and zeros inside the domain of the operation.
fn wide(r: &mut Rng, op: &Op, i: usize) -> f32 {
    let p = |r: &mut Rng, m: f64| 10f64.powf(r.uni(-m, m)) as f32;
    let sg = |r: &mut Rng| if r.chance(0.5) { -1. } else { 1f32 };
    match (op, i) {
        (Div, 1) | (KDiv(_), 0) => p(r, 8.) * sg(r),
        (PowK(k), 0) => {
            let z = r.chance(0.15);
            let x = p(r, 6.);
            let n = sg(r);
            match () {
                _ if z && (*k >= 1. || *k == 0.) => 0.,
                _ if k.fract() == 0. => x * n,
                _ => x,
            }
        }
        (Powi(k), 0) => {
            if k.abs() > 7 {
                (r.uni(-60., 60.) / k.abs() as f64).exp() as f32 * sg(r)
            } else if *k >= 0 && r.chance(0.15) {
                0.
            } else {
                p(r, 4.) * sg(r)
            }
        }
        (Pow, 0) => p(r, 4.),
        (Pow, 1) => r.uni(-7., 7.) as f32,
        (KPow(_), 0) => r.uni(-60., 60.) as f32,
        (Ln, 0) => p(r, 36.),
        (Sqrt, 0) => p(r, 30.),
        (Exp, 0) => r.uni(-85., 85.) as f32,
        (Tan, 0) | (Sin, 0) | (Cos, 0) => r.uni(-1000., 1000.) as f32,
        _ => one(r, Vals::Wide),
    }
}
fn positive(r: &mut Rng) -> f32 {
    r.uni(0.2, 4.) as f32
}
fn nonzero(r: &mut Rng) -> f32 {
    let x = r.uni(0.3, 4.) as f32;
    if r.chance(0.5) {
        -x
    } else {
        x
    }
}

/// Values for the operands inside the domain of the operation.
pub fn values(r: &mut Rng, op: &Op, shapes: &[Sh], v: Vals) -> Vec<Vec<f32>> {
    let n = shapes.len();
    let mut out: Vec<Vec<f32>> = vec![];
    // ties for the comparing operations
    let ties = matches!(op, Max(_) | Min(_)) && v == Vals::Plain && r.chance(0.4);
    let shift = if r.chance(0.15) { r.uni(-30., 30.) as f32 } else { 0. };
    for i in 0..n {
        let len = shapes[i].n();
        let mut x: Vec<f32> = (0..len)
            .map(|_| match (op, i) {
                _ if v == Vals::Wide => wide(r, op, i),
                (Div, 1) | (KDiv(_), 0) => nonzero(r),
                (PowK(k), 0) if k.fract() == 0. => nonzero(r),
                (Pow, 0) | (PowK(_), 0) | (Sqrt, 0) | (Ln, 0) => positive(r),
                (Powi(k), 0) if k.abs() > 7 => (r.uni(-3., 3.) / k.abs() as f64).exp() as f32 * if r.chance(0.5) { -1. } else { 1. },
                (Powi(_), 0) => nonzero(r),
                (Pow, 1) | (KPow(_), 0) => r.uni(-2.5, 2.5) as f32,
                (Tan, 0) => r.uni(-1.2, 1.2) as f32,
                (Exp, 0) => r.uni(-5., 3.) as f32,
                (Max(_), 0) | (Min(_), 0) if ties => r.range(-2, 1) as f32,
                _ => one(r, v),
            })
            .collect();
        if let (Lse(_) | LnSoftmax(_) | Softmax(_) | Sce(_) | SparseSce(..), 0) = (op, i) {
            if v == Vals::Plain {
                for a in x.iter_mut() {
                    *a += shift;
                }
            }
        }
        if let (Max(_) | Min(_), 0) = (op, i) {
            if v == Vals::Smooth {
                // distinct values
                let mut p: Vec<usize> = (0..len).collect();
                r.shuffle(&mut p);
                for (a, k) in x.iter_mut().zip(p) {
                    *a = k as f32 * 0.125 - len as f32 / 16. + 0.0625;
                }
            }
        }
        if let (Max(_) | Min(_), 0) = (op, i) {
            if v == Vals::Plain && r.chance(0.2) {
                // all negative or all positive: catches accumulators started at zero
                let s = if r.chance(0.5) { -1. } else { 1. };
                for a in x.iter_mut() {
                    *a = s * (a.abs() + 0.5);
                }
            }
        }
        out.push(x);
    }
    if let Sce(d) = op {
        // target rows that sum to one
        let s = shapes[1];
        let mut t = RT::<f64> { s, x: out[1].iter().map(|&x| x.abs() as f64 + 0.05).collect() };
        let z = t.reduce(*d, |l| l.iter().sum());
        t = RT::build(s, |c, b| {
            let mut k = *c;
            k[*d as usize] = 0;
            t.g(c, b) / z.g(&k, b)
        });
        out[1] = t.x.iter().map(|&x| x as f32).collect();
    }
    out
}

// Invalid calls.

pub fn any_dim(r: &mut Rng) -> u32 {
    match r.us(12) {
        0 => 8,
        1 => r.range(9, 40) as u32,
        2 => u32::MAX,
        3 => 1 << 31,
        4 => 7,
        _ => r.below(8) as u32,
    }
}
pub fn near(r: &mut Rng, k: u32) -> u32 {
    match r.us(8) {
        0 => k.wrapping_add(1),
        1 => k.wrapping_sub(1),
        2 => 0,
        3 => u32::MAX,
        4 => k.wrapping_mul(2),
        5 => 1 << 31,
        _ => r.below(k as u64 + 3) as u32,
    }
}
pub fn mutate_args(r: &mut Rng, op: &mut Op) {
    let dim = r.chance(0.4);
    match op {
        Sum(d) | Max(d) | Min(d) | Lse(d) | LnSoftmax(d) | Softmax(d) | Sce(d) | Concat(d) | Mean(d) => *d = any_dim(r),
        Broadcast(d, n) => {
            if dim {
                *d = any_dim(r)
            } else {
                *n = near(r, *n)
            }
        }
        SparseSce(ids, d) | Pick(ids, d) => {
            if dim {
                *d = any_dim(r)
            } else {
                mutate_ids(r, ids)
            }
        }
        BatchPick(ids) => mutate_ids(r, ids),
        Slice(d, l, u) => match r.us(4) {
            0 => *d = any_dim(r),
            1 => *l = near(r, *l),
            2 => *u = near(r, *u),
            _ => std::mem::swap(l, u),
        },
        Split(d, n) => {
            if dim {
                *d = any_dim(r)
            } else {
                *n = near(r, *n)
            }
        }
        BatchSlice(l, u) => match r.us(3) {
            0 => *l = near(r, *l),
            1 => *u = near(r, *u),
            _ => std::mem::swap(l, u),
        },
        BatchSplit(n) => *n = near(r, *n),
        Reshape(s) => *s = mutate_shape(r, *s),
        TriL(k) | TriU(k) => *k = near(r, *k),
        _ => (),
    }
}
pub fn mutate_ids(r: &mut Rng, ids: &mut Vec<u32>) {
    match r.us(4) {
        0 => ids.clear(),
        1 => ids.push(0),
        2 => {
            ids.pop();
        }
        _ => {
            if !ids.is_empty() {
                let k = r.us(ids.len());
                ids[k] = near(r, ids[k]);
            }
        }
    }
}
pub fn mutate_shape(r: &mut Rng, s: Sh) -> Sh {
    let mut s = s;
    match r.us(6) {
        0 => s.b = r.range(1, 4) as u32,
        1 => s.b = s.b + 1,
        2 => {
            let (i, j) = (r.us(4), r.us(4));
            s.d.swap(i, j);
        }
        3 => s.d[r.us(MD)] = 1,
        4 => return shape(r, 60),
        _ => {
            let m = if r.chance(0.8) { 3 } else { MD };
            let k = r.us(m);
            s.d[k] = r.range(1, 5) as u32;
        }
    }
    shrink(r, s, 400)
}

/// Values are drawn for the operation; softmax targets need a valid dimension.
pub fn domain(op: &Op, shapes: &[Sh]) -> Op {
    match op {
        Op::Sce(d) if *d >= 8 || shapes.len() < 2 => Op::Neg,
        o => o.clone(),
    }
}

