//! C23: extreme inputs of the softmax family and of saturating functions.
use hcore::ensure;
use hcore::gen;
use hcore::ops::*;
use hcore::refm::*;
use hcore::single::Sink;
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Parameter, Tensor};

const U: f64 = 6e-8;

/// Logits of a line.
fn logits(r: &mut Rng, n: usize) -> Vec<f32> {
    let mag = |r: &mut Rng| 10f64.powf(r.uni(-6., 37.));
    let v: Vec<f64> = match r.us(10) {
        0 => {
            let m = mag(r);
            (0..n).map(|_| r.uni(-m, m)).collect()
        }
        1 => (0..n).map(|_| mag(r) * if r.chance(0.5) { -1. } else { 1. }).collect(),
        2 => {
            // close together, far away from zero
            let b = 10f64.powf(r.uni(0., 5.)) * if r.chance(0.5) { -1. } else { 1. };
            (0..n).map(|_| b + r.uni(-3., 3.)).collect()
        }
        3 => {
            // one that dominates
            let m = 10f64.powf(r.uni(0., 36.));
            let k = r.us(n);
            (0..n).map(|i| if i == k { m } else { r.uni(-m, 0.) }).collect()
        }
        4 => {
            let m = mag(r) * if r.chance(0.5) { -1. } else { 1. };
            vec![m; n]
        }
        5 => {
            let step = r.uni(-60., 60.);
            (0..n).map(|i| step * i as f64).collect()
        }
        6 => {
            // the thresholds of exp
            let c = *r.pick(&[88.7, 103.9, 87.3, 709.7, 745.1, 16.6, 17.3]);
            (0..n).map(|_| (c + r.uni(-1., 1.)) * *r.pick(&[-1., 0., 1.])).collect()
        }
        7 => (0..n).map(|_| r.uni(-150., 150.)).collect(),
        8 => (0..n).map(|_| *r.pick(&[0., -0., 1e-40, -1e-40, 1e30, -1e30, 1e4, -1e4, 100., -100.])).collect(),
        _ => (0..n).map(|_| r.uni(-4., 4.)).collect(),
    };
    v.into_iter().map(|x| x as f32).collect()
}
/// Shifted logits, their log-sum-exp and probabilities, precisely.
struct Line {
    x: Vec<f64>,
    max: f64,
    /// ln(sum exp(x - max))
    ls: f64,
    /// error allowed in a log probability
    tol: f64,
}
impl Line {
    fn new(x: &[f64]) -> Line {
        let max = x.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
        let m = x.iter().fold(0f64, |a, b| a.max(b.abs()));
        let n = x.len() as f64;
        let mut e: Vec<f64> = x.iter().map(|v| (v - max).exp()).collect();
        e.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let ls = e.iter().sum::<f64>().ln();
        // the log-sum-exp is rounded, and the difference
        Line { x: x.to_vec(), max, ls, tol: U * (4. * (m + 2. + n.ln()) + 4. * n.sqrt()) + 1e-37 }
    }
    fn lse(&self) -> f64 {
        self.max + self.ls
    }
    fn lp(&self, i: usize) -> f64 {
        (self.x[i] - self.max) - self.ls
    }
    fn p(&self, i: usize) -> f64 {
        self.lp(i).exp()
    }
    fn tol_lp(&self, i: usize) -> f64 {
        self.tol + 2. * U * self.lp(i).abs()
    }
    /// Bounds of a probability computed from the rounded log probability.
    fn p_range(&self, i: usize) -> (f64, f64) {
        let t = self.tol_lp(i);
        let (lo, hi) = ((self.lp(i) - t).exp(), (self.lp(i) + t).exp());
        // a log probability is not positive
        (lo * (1. - 4. * U) - 2. * U, (hi.min(1.) * (1. + 4. * U)) + 2. * U)
    }
}
fn finite(what: &str, got: f32, want: f64) -> Result<(), String> {
    ensure!(got.is_finite() || want.abs() > 3.3e38, "{}: {} where {:e} is expected", what, got, want);
    Ok(())
}
fn near(what: &str, got: f32, want: f64, tol: f64) -> Result<(), String> {
    finite(what, got, want)?;
    ensure!(want.abs() > 3.3e38 || (got as f64 - want).abs() <= tol, "{}: {:e} where {:e} is expected (tolerance {:e})", what, got, want, tol);
    Ok(())
}
fn inside(what: &str, got: f32, lo: f64, hi: f64) -> Result<(), String> {
    ensure!(got as f64 >= lo && got as f64 <= hi, "{}: {:e} is outside of [{:e}, {:e}]", what, got, lo, hi);
    Ok(())
}

fn family(dev: &mut Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let dev = *dev;
    let s = gen::shape(r, max);
    let d = if r.chance(0.9) { r.us(s.depth().max(1)) as u32 } else { r.below(8) as u32 };
    let n = s.at(d) as usize;
    let o = s.with(d, 1);
    // lines
    let mut x = RT::<f64>::from_f32(s, &vec![0.; s.n()]);
    let mut err = None;
    o.each(|c, b| {
        let l = logits(r, n);
        for (i, v) in l.iter().enumerate() {
            let mut k = *c;
            k[d as usize] = i as u32;
            let at = s.index(&k, b);
            x.x[at] = *v as f64;
        }
    });
    let data: Vec<f32> = x.x.iter().map(|v| *v as f32).collect();
    let t = tensor(dev, s, &data);
    let node = r.chance(0.5);
    let mut p = Parameter::new(tensor(dev, s.with_b(1), &data[..s.vol() as usize]), tensor(dev, s.with_b(1), &vec![0.; s.vol() as usize]));
    let leaf = if s.b == 1 && r.chance(0.3) { Node::from(&mut p) } else { Node::from(&t) };
    let gy = |r: &mut Rng, k: usize| -> Vec<f32> { (0..k).map(|_| *r.pick(&[1f32, -1., 0.5, 2., 0., -3.])).collect() };
    // incoming gradients reach a leaf of their own
    let grad = |y: &Node<'_, 'static>, leaf: &Node<'_, 'static>, w: &[f32], ws: Sh| -> Vec<f32> {
        Node::create(Sink { dev, w: vec![tensor(dev, ws, w)] }, &[y])[0].backward();
        leaf.inner_gradient().to_vec()
    };
    let get = |f: &dyn Fn(&Tensor<'static>) -> Tensor<'static>, g: &Node<'_, 'static>| if node { g.to_vec() } else { f(&t).to_vec() };
    let kind = r.us(6);
    let name = ["logsumexp", "ln_softmax", "softmax", "softmax_cross_entropy", "sparse_softmax_cross_entropy", "shift"][kind];
    let what = |c: &[u32; MD], b: u32, l: &Line| format!("{} along {} of {:?}, node {}, line {:?}.. of sample {}: {:?}", name, d, s, node, c, b, l.x.iter().take(12).collect::<Vec<_>>());
    // the softmax family is independent of this dimension if there is just one element
    let mut done = 0;
    let mut check = |o: Sh, f: &mut dyn FnMut(&[u32; MD], u32, &Line, &dyn Fn(usize) -> usize) -> Result<(), String>| {
        o.each(|c, b| {
            if err.is_some() {
                return;
            }
            let l = Line::new(&x.line(c, b, d));
            let at = |i: usize| {
                let mut k = *c;
                k[d as usize] = i as u32;
                s.index(&k, b)
            };
            done += 1;
            if let Err(m) = f(c, b, &l, &at) {
                err = Some(format!("{}; {}", what(c, b, &l), m));
            }
        });
        match err.take() {
            Some(m) => Err(m),
            None => Ok(()),
        }
    };
    match kind {
        0 => {
            let y = leaf.logsumexp(d);
            let v = get(&|t| t.logsumexp(d), &y);
            let w = gy(r, o.n());
            let g = grad(&y, &leaf, &w, o);
            check(o, &mut |c, b, l, at| {
                let k = o.index(c, b);
                near("value", v[k], l.lse(), l.tol)?;
                for i in 0..n {
                    let (lo, hi) = l.p_range(i);
                    let q = w[k] as f64;
                    let e = 4. * U * q.abs();
                    inside("gradient", g[at(i)], (lo * q).min(hi * q) - e, (lo * q).max(hi * q) + e)?;
                }
                Ok(())
            })?;
        }
        1 | 2 => {
            let y = if kind == 1 { leaf.ln_softmax(d) } else { leaf.softmax(d) };
            let v = get(&|t| if kind == 1 { t.ln_softmax(d) } else { t.softmax(d) }, &y);
            let w = gy(r, s.n());
            let g = grad(&y, &leaf, &w, s);
            check(o, &mut |_, _, l, at| {
                let mut sum = 0.;
                let (mut slo, mut shi) = (0., 0.);
                for i in 0..n {
                    if kind == 1 {
                        near("log probability", v[at(i)], l.lp(i), l.tol_lp(i))?;
                        ensure!(v[at(i)] as f64 <= 4. * U, "log probability {}", v[at(i)]);
                        sum += (v[at(i)] as f64).exp();
                    } else {
                        let (lo, hi) = l.p_range(i);
                        inside("probability", v[at(i)], lo, hi)?;
                        inside("probability", v[at(i)], 0., 1. + 4. * U)?;
                        sum += v[at(i)] as f64;
                    }
                    let (lo, hi) = l.p_range(i);
                    slo += lo;
                    shi += hi;
                }
                ensure!(sum >= slo && sum <= shi, "the probabilities sum to {}", sum);
                if l.tol < 0.1 {
                    ensure!((sum - 1.).abs() <= 2. * l.tol + 4. * U * n as f64, "the probabilities sum to {}", sum);
                }
                // gradient
                let q: Vec<f64> = (0..n).map(|i| w[at(i)] as f64).collect();
                let qa: f64 = q.iter().map(|x| x.abs()).sum();
                if l.tol < 0.1 {
                    let pt = 4. * l.tol + 8. * U;
                    if kind == 1 {
                        let qs: f64 = q.iter().sum();
                        for i in 0..n {
                            let p = l.p(i);
                            near("gradient", g[at(i)], q[i] - p * qs, pt * p * qa + 4. * U * (n as f64 + 1.) * qa)?;
                        }
                    } else {
                        let m: f64 = (0..n).map(|i| q[i] * l.p(i)).sum();
                        let ma: f64 = (0..n).map(|i| q[i].abs() * (l.p(i) + 2. * U)).sum();
                        for i in 0..n {
                            let p = l.p(i);
                            near("gradient", g[at(i)], p * (q[i] - m), 3. * (pt + 4. * U * n as f64) * (p * (q[i].abs() + ma) + U))?;
                        }
                    }
                } else {
                    for i in 0..n {
                        finite("gradient", g[at(i)], 0.)?;
                        ensure!((g[at(i)] as f64).abs() <= 3. * (qa + 1.) * n as f64, "gradient {}", g[at(i)]);
                    }
                }
                Ok(())
            })?;
        }
        3 => {
            // targets: one-hot or spread, summing to one
            let mut tt = RT::<f64>::from_f32(s, &vec![0.; s.n()]);
            o.each(|c, b| {
                let hot = r.us(n);
                let spread = r.chance(0.5);
                for i in 0..n {
                    let mut k = *c;
                    k[d as usize] = i as u32;
                    let at = s.index(&k, b);
                    tt.x[at] = if spread { (1. / n as f64) as f32 as f64 } else { (i == hot) as u32 as f64 };
                }
            });
            let tv: Vec<f32> = tt.x.iter().map(|v| *v as f32).collect();
            let target = tensor(dev, s, &tv);
            let tn = Node::from(tensor(dev, s, &tv));
            let y = leaf.softmax_cross_entropy(&tn, d);
            let v = get(&|t| t.softmax_cross_entropy(&target, d), &y);
            let w = gy(r, o.n());
            let g = grad(&y, &leaf, &w, o);
            let gt = tn.inner_gradient().to_vec();
            check(o, &mut |c, b, l, at| {
                let k = o.index(c, b);
                let q = w[k] as f64;
                let (mut want, mut tol) = (0., 0.);
                for i in 0..n {
                    let t = tt.x[at(i)];
                    if t != 0. {
                        want -= t * l.lp(i);
                        tol += t * (l.tol_lp(i) + U * (4. + n as f64) * l.lp(i).abs());
                    }
                }
                near("value", v[k], want, tol + 4. * U)?;
                for i in 0..n {
                    let (lo, hi) = l.p_range(i);
                    let t = tt.x[at(i)];
                    let e = 8. * U * q.abs();
                    inside("gradient", g[at(i)], ((lo - t) * q).min((hi - t) * q) - e, ((lo - t) * q).max((hi - t) * q) + e)?;
                    near("gradient of the target", gt[at(i)], -l.lp(i) * q, q.abs() * (l.tol_lp(i) + 4. * U * l.lp(i).abs()))?;
                }
                Ok(())
            })?;
        }
        4 => {
            let ids: Vec<u32> = if s.b > 1 && r.chance(0.5) { (0..s.b).map(|_| r.us(n) as u32).collect() } else { vec![r.us(n) as u32] };
            let y = leaf.sparse_softmax_cross_entropy(&ids, d);
            let v = get(&|t| t.sparse_softmax_cross_entropy(&ids, d), &y);
            let w = gy(r, o.n());
            let g = grad(&y, &leaf, &w, o);
            check(o, &mut |c, b, l, at| {
                let k = o.index(c, b);
                let q = w[k] as f64;
                let id = if ids.len() > 1 { ids[b as usize] } else { ids[0] } as usize;
                near("value", v[k], -l.lp(id), l.tol_lp(id))?;
                ensure!(v[k] as f64 >= -4. * U, "the cross entropy is {}", v[k]);
                for i in 0..n {
                    let (lo, hi) = l.p_range(i);
                    let t = (i == id) as u32 as f64;
                    let e = 8. * U * q.abs();
                    inside("gradient", g[at(i)], ((lo - t) * q).min((hi - t) * q) - e, ((lo - t) * q).max((hi - t) * q) + e)?;
                }
                Ok(())
            })?;
        }
        _ => {
            // shifting all logits
            let k = *r.pick(&[1f32, -100., 1e3, 1e4, -1e5, 64.]);
            let y = get(&|t| (t + k).softmax(d), &(&leaf + k).softmax(d));
            let z = get(&|t| t.softmax(d), &leaf.softmax(d));
            check(o, &mut |_, _, l, at| {
                let big = l.x.iter().fold(0f64, |a, b| a.max(b.abs())) + k.abs() as f64;
                let tol = 8. * U * (big + 2. + (n as f64).ln()) + 8. * U * (n as f64).sqrt();
                for i in 0..n {
                    let (a, b) = (y[at(i)] as f64, z[at(i)] as f64);
                    ensure!(tol > 0.5 || (a - b).abs() <= (tol.exp_m1()) * 2. * a.max(b) + 8. * U, "shifting by {} changed the probability of {} from {} to {}", k, l.x[i], b, a);
                }
                Ok(())
            })?;
        }
    }
    rep.count(name);
    rep.add("lines", done);
    rep.distinct(&(name, s, d, data.iter().map(|x| x.to_bits()).take(8).collect::<Vec<_>>()));
    rep.sample(|| format!("{} along {} of {:?}: {:?}..", name, d, s, &data[..data.len().min(8)]));
    Ok(())
}

fn saturating(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let dev = *dev;
    let s = gen::shape(r, 60);
    let x: Vec<f32> = (0..s.n())
        .map(|_| match r.us(5) {
            0 => loop {
                let v = f32::from_bits(r.next() as u32);
                if v.is_finite() {
                    break v;
                }
            },
            1 => r.uni(-20., 20.) as f32,
            2 => (*r.pick(&[88.7, 103.9, 87.3, 17.3, 16.6, 9.01, 44.4]) + r.uni(-1., 1.)) as f32 * *r.pick(&[-1f32, 1.]),
            3 => *r.pick(&[0f32, -0., f32::MAX, -f32::MAX, f32::MIN_POSITIVE, 1e-45, -1e-45, 1e4, -1e4, 1e30, -1e30]),
            _ => (10f64.powf(r.uni(-8., 38.)) * if r.chance(0.5) { -1. } else { 1. }) as f32,
        })
        .collect();
    let k = *r.pick(&[1f32, 1., 0.5, -1., 2., 10., 0., 1e-3, -100., 1e4, 1e20, 3e38, -3e38, 1e-38]);
    let kind = r.us(4);
    let name = ["sigmoid", "tanh", "softplus", "elu"][kind];
    let f = |v: f64| -> (f64, f64) {
        // value and derivative
        let sg = |v: f64| if v >= 0. { 1. / (1. + (-v).exp()) } else { v.exp() / (1. + v.exp()) };
        match kind {
            0 => (sg(v), sg(v) * sg(-v)),
            1 => (v.tanh(), 1. - v.tanh() * v.tanh()),
            2 => ((-v.abs()).exp().ln_1p() + v.max(0.), sg(v)),
            _ if v > 0. => (v, 1.),
            _ => (k as f64 * v.exp_m1(), k as f64 * v.exp()),
        }
    };
    let t = tensor(dev, s, &x);
    let node = r.chance(0.5);
    let leaf = Node::from(&t);
    let y = match kind {
        0 => leaf.sigmoid(),
        1 => leaf.tanh(),
        2 => leaf.softplus(),
        _ => leaf.elu(k),
    };
    let v = if node {
        y.to_vec()
    } else {
        match kind {
            0 => t.sigmoid(),
            1 => t.tanh(),
            2 => t.softplus(),
            _ => t.elu(k),
        }
        .to_vec()
    };
    let w: Vec<f32> = (0..s.n()).map(|_| *r.pick(&[1f32, -1., 3., 1e-3, -0., 1e6])).collect();
    Node::create(Sink { dev, w: vec![tensor(dev, s, &w)] }, &[&y])[0].backward();
    let g = leaf.inner_gradient().to_vec();
    for i in 0..s.n() {
        let (want, der) = f(x[i] as f64);
        let what = format!("{} of {:e} (node {}, k {})", name, x[i], node, k);
        let m = if kind == 3 { k.abs() as f64 } else { 1. };
        near(&what, v[i], want, 4. * U * want.abs().max(m))?;
        if kind == 0 {
            inside(&what, v[i], 0., 1.)?;
        }
        if kind == 1 {
            inside(&what, v[i], -1., 1.)?;
        }
        let q = w[i] as f64;
        if kind == 3 && x[i] == 0. {
            // either side
            let (a, b) = (q, q * k as f64);
            if b.abs() > 3.3e38 {
                continue;
            }
            inside(&what, g[i], a.min(b) - 8. * U * a.abs().max(b.abs()), a.max(b) + 8. * U * a.abs().max(b.abs()))?;
        } else {
            near(&format!("gradient of {}", what), g[i], der * q, 8. * U * q.abs() * m.max(1.))?;
        }
    }
    rep.count(name);
    rep.add("values", s.n() as u64);
    rep.distinct(&(name, x.iter().map(|x| x.to_bits()).take(8).collect::<Vec<_>>()));
    rep.sample(|| format!("{} of {:?}..", name, &x[..x.len().min(8)]));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("family", cfg.q(400_000, 8_000_000), 10., naive, |d, r, rep| family(d, r, rep, 40));
    cfg.stage("longer", cfg.q(20_000, 400_000), 6., naive, |d, r, rep| family(d, r, rep, 2000));
    cfg.stage("long", cfg.q(150, 3_000), 8., naive, |d, r, rep| {
        // one line of many elements
        let n = r.range(2000, 70_000) as u32;
        let v = logits(r, n as usize);
        let before = r.range(1, 2) as u32;
        let s = Sh::new(&if before == 1 { vec![n] } else { vec![1, n] }, 1);
        let t = tensor(*d, s, &v);
        let l = Line::new(&v.iter().map(|x| *x as f64).collect::<Vec<_>>());
        let y = t.logsumexp(before - 1).to_float();
        near("logsumexp of a long line", y, l.lse(), l.tol)?;
        let p = t.softmax(before - 1).to_vec();
        for i in 0..p.len() {
            let (lo, hi) = l.p_range(i);
            inside("softmax of a long line", p[i], lo, hi)?;
        }
        if l.tol < 0.01 {
            let sum: f64 = p.iter().map(|x| *x as f64).sum();
            ensure!((sum - 1.).abs() < 2. * l.tol + 1e-4, "softmax of {} elements sums to {}", n, sum);
        }
        rep.distinct(&(n, v[0].to_bits()));
        Ok(())
    });
    cfg.stage("saturating", cfg.q(400_000, 8_000_000), 8., naive, saturating);
    cfg.finish(
        "values and gradients of the softmax family on lines of extreme, mixed, clustered and equal logits, and of saturating functions on arbitrary finite numbers, by tensors and nodes, against a double-precision reference with shifted exponentials; sums, ranges, shifts",
        &["magnitudes up to 1e37, so that differences of logits are representable", "tolerances are multiples of the single-precision rounding of the largest magnitude in the line"],
    )
}
