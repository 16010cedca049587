//! C17: random tensors and initializers.
use hcore::ensure;
use hcore::gen;
use hcore::ops::*;
use hcore::refm::*;
use hcore::stat;
use hcore::util::*;
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::initializers as I;
use prima_undine::{Initializer, Parameter, Randomizer, Tensor};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dist {
    Coin(f32),
    Uniform(f32, f32),
    Normal(f32, f32),
    LogNormal(f32, f32),
    Xavier(f32),
    Constant(f32),
}
use Dist::*;

impl Dist {
    fn any(r: &mut Rng) -> Dist {
        let unit = |r: &mut Rng| r.unit() as f32;
        match r.us(3) {
            0 => Coin(match r.us(8) {
                0 => 0.,
                1 => 1.,
                2 => 0.01 * unit(r),
                3 => 1. - 0.01 * unit(r),
                4 => 0.5,
                _ => unit(r),
            }),
            1 => {
                let lo = *r.pick(&[0f32, -1., 0.5, -100., 3., -1e-3, 1e5, -1e20]);
                let w = *r.pick(&[1f32, 2., 0.25, 1e-2, 1e3, 1e20, 1e-6]) * (1. + unit(r));
                let hi = lo + w;
                if hi > lo {
                    Uniform(lo, hi)
                } else {
                    Uniform(-w, w)
                }
            }
            _ => Normal(*r.pick(&[0f32, 1., -3., 100., 1e-3, -1e10]), *r.pick(&[1f32, 0.1, 5., 1e-3, 1e5, 0., 1e-30, 1e20]) * (1. + unit(r))),
        }
    }
    fn draw(&self, dev: Dev, s: Sh) -> Tensor<'static> {
        match *self {
            Coin(p) => dev.random_bernoulli(s.real(), p),
            Uniform(a, b) => dev.random_uniform(s.real(), a, b),
            Normal(m, d) => dev.random_normal(s.real(), m, d),
            _ => hcore::harness_error!("no such draw"),
        }
    }
    fn initializer(&self) -> Box<dyn Initializer> {
        match *self {
            Uniform(a, b) => Box::new(I::Uniform::new(a, b)),
            Normal(m, d) => Box::new(I::Normal::new(m, d)),
            Xavier(k) => Box::new(I::XavierUniform::new(k)),
            Constant(k) => Box::new(I::Constant::new(k)),
            _ => hcore::harness_error!("no such initializer"),
        }
    }
    /// The bounds for this shape.
    fn bounds(&self, s: &Sh) -> Option<(f64, f64)> {
        match *self {
            Uniform(a, b) => Some((a as f64, b as f64)),
            Xavier(k) => {
                let b = k as f64 * (6. / (s.at(0) as f64 + s.at(1) as f64)).sqrt();
                Some((-b, b))
            }
            _ => None,
        }
    }
    /// Checks values that should be independent draws; `vol`: distance of samples.
    fn check(&self, s: &Sh, v: &[f32], lags: &[usize]) -> Result<(), String> {
        let what = format!("{:?} of shape {:?}", self, s);
        match *self {
            Coin(p) => {
                ensure!(v.iter().all(|x| *x == 0. || *x == 1.), "{}: values besides 0 and 1: {:?}", what, &v[..v.len().min(20)]);
                let b: Vec<bool> = v.iter().map(|x| *x == 1.).collect();
                stat::coins(&b, p as f64, lags, &what)
            }
            Uniform(..) | Xavier(_) => {
                let (a, b) = self.bounds(s).unwrap();
                let slack = match self {
                    Xavier(_) => 1e-6 * b.abs(),
                    _ => 0.,
                };
                if let Some(x) = v.iter().find(|x| !(**x as f64 >= a - slack && **x as f64 <= b + slack)) {
                    return Err(format!("{}: {} is outside of [{}, {}]", what, x, a, b));
                }
                let g = 1.2e-7 * a.abs().max(b.abs()) / (b - a);
                let u: Vec<f64> = v.iter().map(|x| (*x as f64 - a) / (b - a)).collect();
                stat::uniform(&u, 2. * g, lags, &what)
            }
            Normal(m, d) if d == 0. => {
                ensure!(v.iter().all(|x| *x == m), "{}: values besides the mean", what);
                Ok(())
            }
            Normal(m, d) => {
                let (m, d) = (m as f64, d as f64);
                let g = 1.2e-7 * (m.abs() + d) / d;
                if g > 0.05 {
                    // the rounding exceeds the spread
                    ensure!(v.iter().all(|x| (*x as f64 - m).abs() <= 9. * d + 1.2e-7 * m.abs()), "{}: far away values {:?}", what, &v[..v.len().min(20)]);
                    return Ok(());
                }
                let u: Vec<f64> = v.iter().map(|x| stat::phi((*x as f64 - m) / d)).collect();
                stat::uniform(&u, g, lags, &what)?;
                // the tails
                for t in [3., 4.5] {
                    let k = v.iter().filter(|x| ((**x as f64 - m) / d).abs() > t).count() as u64;
                    stat::binomial(k, v.len() as u64, 2. * (1. - stat::phi(t)) + 0.03 * g, &format!("{}: beyond {} deviations", what, t))?;
                }
                Ok(())
            }
            LogNormal(m, d) => {
                let u: Vec<f64> = v.iter().map(|x| stat::phi(((*x as f64).ln() - m as f64) / d as f64)).collect();
                stat::uniform(&u, 1e-5, lags, &what)
            }
            Constant(k) => {
                ensure!(v.iter().all(|x| x.to_bits() == k.to_bits()), "{}: {:?}", what, &v[..v.len().min(20)]);
                Ok(())
            }
        }
    }
}

fn lags(s: &Sh) -> Vec<usize> {
    let mut l = vec![1usize, 2, 3, 4, 8, s.vol() as usize, s.n() / 2, s.at(0) as usize];
    l.sort();
    l.dedup();
    l
}
fn big_shape(r: &mut Rng) -> Sh {
    let mut s = gen::shape(r, 400);
    while s.size() < 3000 {
        if r.chance(0.5) {
            s.b += r.range(1, 40) as u32;
        } else {
            let k = r.us(4);
            s.d[k] += r.range(1, 9) as u32;
        }
    }
    gen::shrink(r, s, 30_000)
}

/// One large tensor: range, distribution, independence of positions.
fn large(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let d = Dist::any(r);
    let s = big_shape(r);
    let t = d.draw(*dev, s);
    ensure!(Sh::of(t.shape()) == s, "{:?}: a tensor of shape {:?} where {:?} was requested", d, t.shape(), s);
    let v = t.to_vec();
    ensure!(v.len() == s.n(), "{:?}: {} elements for {:?}", d, v.len(), s);
    d.check(&s, &v, &lags(&s))?;
    // every sample and every position on its own
    let vol = s.vol() as usize;
    let pick = r.us(s.b as usize);
    d.check(&s, &v[pick * vol..(pick + 1) * vol], &[1, 2])?;
    let pos = r.us(vol);
    let line: Vec<f32> = (0..s.b as usize).map(|b| v[b * vol + pos]).collect();
    d.check(&s, &line, &[1, 2])?;
    rep.add("draws", v.len() as u64);
    rep.distinct(&(format!("{:?}", d), s));
    rep.sample(|| format!("{:?} of {:?}", d, s));
    Ok(())
}

/// Many draws of one small shape: each position, successive draws, refused draws in between.
fn history(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let d = Dist::any(r);
    let s = gen::shape(r, 40);
    let n = 600;
    let mut all = vec![];
    let hostile = r.chance(0.5);
    for _ in 0..n {
        if hostile && r.chance(0.05) {
            refused(*dev, r)?;
            rep.count("refused");
        }
        if r.chance(0.02) {
            // other draws of the same device
            let o = Dist::any(r);
            let _ = o.draw(*dev, gen::shape(r, 20));
        }
        let t = d.draw(*dev, s);
        ensure!(Sh::of(t.shape()) == s, "{:?}: shape {:?} instead of {:?}", d, t.shape(), s);
        all.push(t.to_vec());
    }
    for p in 0..s.n() {
        let line: Vec<f32> = all.iter().map(|v| v[p]).collect();
        d.check(&s, &line, &[1, 2, 5]).map_err(|m| format!("position {} in {} draws, {}", p, n, m))?;
    }
    let flat: Vec<f32> = all.concat();
    d.check(&s, &flat, &[1, 2, s.n(), 2 * s.n(), s.vol() as usize])?;
    rep.add("draws", flat.len() as u64);
    rep.distinct(&(format!("{:?}", d), s));
    Ok(())
}

/// A draw with parameters that no distribution has.
fn refused(dev: Dev, r: &mut Rng) -> Result<(), String> {
    let s = gen::shape(r, 20);
    let nan = f32::NAN;
    let k = r.us(8);
    let got = catch(|| match k {
        0 => dev.random_bernoulli(s.real(), -0.1),
        1 => dev.random_bernoulli(s.real(), 1.1),
        2 => dev.random_bernoulli(s.real(), nan),
        3 => dev.random_uniform(s.real(), 1., 1.),
        4 => dev.random_uniform(s.real(), 2., -1.),
        5 => dev.random_uniform(s.real(), nan, 1.),
        6 => dev.random_normal(s.real(), 0., -1.),
        _ => dev.random_normal(s.real(), 0., nan),
    });
    ensure!(got.is_err(), "invalid parameters (case {}) were accepted", k);
    Ok(())
}

/// New parameters: value by the initializer, zero gradient.
fn parameters(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let d = match r.us(4) {
        0 => Constant(*r.pick(&[0f32, -0., 1., -2.5, 1e-38, f32::INFINITY, 3e38])),
        1 => Xavier(*r.pick(&[1f32, 0.5, 2., 1e-3, 30.])),
        _ => loop {
            let d = Dist::any(r);
            if !matches!(d, Coin(_)) {
                break d;
            }
        },
    };
    let ini = d.initializer();
    let mut s = gen::shape(r, 60).with_b(1);
    if let Xavier(_) = d {
        if r.chance(0.9) {
            s = Sh::new(&[r.range(1, 12) as u32, r.range(1, 12) as u32], 1);
        }
    }
    let matrix = s.is_matrix();
    let mut flat = vec![];
    for i in 0..if matches!(d, Constant(_)) { 2 } else { 300 } {
        let p: Parameter = match catch(|| dev.new_parameter(s.real(), &*ini)) {
            Ok(p) => p,
            Err(m) => {
                ensure!(matches!(d, Xavier(_)) && !matrix, "a parameter of {:?} by {:?} was refused: {}", s, d, m);
                rep.count("refused_shapes");
                return Ok(());
            }
        };
        ensure!(!matches!(d, Xavier(_)) || matrix, "{:?} accepted {:?}", d, s);
        ensure!(Sh::of(p.value.shape()) == s && Sh::of(p.gradient.shape()) == s && Sh::of(p.shape()) == s, "a parameter of shape {:?}/{:?} where {:?} was requested", p.value.shape(), p.gradient.shape(), s);
        ensure!(p.value.valid() && p.gradient.valid(), "parts of a new parameter are not allocated");
        ensure!(p.gradient.to_vec().iter().all(|g| g.to_bits() == 0), "a new parameter has the gradient {:?}", p.gradient.to_vec());
        ensure!(p.stats.is_empty(), "a new parameter has statistics");
        let v = p.value.to_vec();
        d.check(&s, &v, &[])?;
        flat.extend(v);
        // the memory is recycled with other contents
        if i % 16 == 0 {
            poison(*dev, &[s.size() as u32], 3, 77.);
        }
    }
    d.check(&s, &flat, &[1, s.n(), 2])?;
    // directly
    if !matches!(d, Constant(_)) || r.chance(0.3) {
        let b = if r.chance(0.5) { s.with_b(r.range(1, 5) as u32) } else { s };
        let mut flat = vec![];
        for _ in 0..100 {
            let mut t = dev.new_tensor(b.real());
            ini.apply(&mut t);
            ensure!(Sh::of(t.shape()) == b && t.valid(), "{:?} initialized a tensor of {:?} to {:?}", d, b, t.shape());
            flat.extend(t.to_vec());
        }
        d.check(&b, &flat, &[1, b.n(), b.vol() as usize])?;
    }
    rep.add("draws", flat.len() as u64);
    rep.distinct(&(format!("{:?}", d), s));
    rep.sample(|| format!("parameters {:?} of {:?}", d, s));
    Ok(())
}

/// The fillers on slices of their own.
fn fillers(_: &mut (), r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut q = prima_undine::DefaultRandomizer::new();
    let n = r.range(2000, 20_000) as usize;
    let mut v = vec![-9f32; n + 2];
    let d = match r.us(4) {
        0 => LogNormal(*r.pick(&[0f32, 1., -2.]), *r.pick(&[1f32, 0.25, 2.])),
        _ => Dist::any(r),
    };
    match d {
        Coin(p) => q.fill_bernoulli(p, &mut v[1..=n]),
        Uniform(a, b) => q.fill_uniform(a, b, &mut v[1..=n]),
        Normal(m, s) => q.fill_normal(m, s, &mut v[1..=n]),
        LogNormal(m, s) => q.fill_log_normal(m, s, &mut v[1..=n]),
        _ => unreachable!(),
    }
    ensure!(v[0] == -9. && v[n + 1] == -9., "{:?} wrote outside of its slice", d);
    d.check(&Sh::new(&[n as u32], 1), &v[1..=n], &[1, 2, 3, 64, 100, 128, 256, n / 2])?;
    rep.add("draws", n as u64);
    rep.distinct(&(format!("{:?}", d), n));
    Ok(())
}

/// Several threads and devices draw at the same time.
fn threads(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let d = loop {
        let d = Dist::any(r);
        match d {
            Coin(_) => {}
            Normal(m, s) if s < 1e-5 * m.abs() => {}
            Uniform(a, b) if b - a < 1e-5 * a.abs() => {}
            Normal(_, s) if s == 0. => {}
            d => break d,
        }
    };
    let s = gen::shape(r, 300);
    let own = r.chance(0.5);
    let dev: Dev = *dev;
    let got: Vec<Vec<f32>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|_| {
                sc.spawn(move || {
                    let mut v = vec![];
                    while v.len() < 3000 {
                        if own {
                            // a device of its own
                            let f = hcore::prog::Fresh::new();
                            v.extend(d.draw(f.0, s).to_vec());
                        } else {
                            v.extend(d.draw(dev, s).to_vec());
                        }
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let flat = got.concat();
    d.check(&s, &flat, &[1, s.n(), got[0].len(), 2 * got[0].len()])?;
    rep.add("draws", flat.len() as u64);
    rep.distinct(&(format!("{:?}", d), s, own));
    Ok(())
}

/// Millions of draws of one distribution: fine structure, far tails.
fn many(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let d = loop {
        match r.us(5) {
            0 => break Coin(*r.pick(&[1e-5f32, 1e-4, 1e-3, 0.999, 0.9999, 0.3, 0.5, 0.999_99])),
            1 => break Uniform(*r.pick(&[0f32, -1., -3., 0.5]), *r.pick(&[1f32, 2., 100.])),
            2 => break LogNormal(*r.pick(&[0f32, 1.]), *r.pick(&[1f32, 0.25])),
            _ => break Normal(*r.pick(&[0f32, 1., -3.]), *r.pick(&[1f32, 0.1, 5.])),
        }
    };
    let n = 1_500_000;
    let mut v: Vec<f32> = vec![];
    let way = r.us(3);
    let mut s = Sh::new(&[n as u32], 1);
    if way == 0 || matches!(d, LogNormal(..)) {
        let mut q = prima_undine::DefaultRandomizer::new();
        v = vec![0.; n];
        match d {
            Coin(p) => q.fill_bernoulli(p, &mut v),
            Uniform(a, b) => q.fill_uniform(a, b, &mut v),
            Normal(m, s) => q.fill_normal(m, s, &mut v),
            LogNormal(m, s) => q.fill_log_normal(m, s, &mut v),
            _ => unreachable!(),
        }
    } else {
        s = big_shape(r);
        while v.len() < n {
            if way == 2 && !matches!(d, Coin(_)) {
                let mut t = dev.new_tensor(s.real());
                d.initializer().apply(&mut t);
                v.extend(t.to_vec());
            } else {
                v.extend(d.draw(*dev, s).to_vec());
            }
        }
    }
    d.check(&s, &v, &[1, 2, s.n()])?;
    let u: Option<Vec<f64>> = match d {
        Uniform(a, b) => Some(v.iter().map(|x| (*x as f64 - a as f64) / (b as f64 - a as f64)).collect()),
        Normal(m, d) => Some(v.iter().map(|x| stat::phi((*x as f64 - m as f64) / d as f64)).collect()),
        LogNormal(m, d) => Some(v.iter().map(|x| stat::phi(((*x as f64).ln() - m as f64) / d as f64)).collect()),
        _ => None,
    };
    if let Some(u) = u {
        stat::bins(&u, 100, 3e-6, &format!("{:?}", d))?;
    }
    let z: Option<Vec<f64>> = match d {
        Normal(m, d) => Some(v.iter().map(|x| (*x as f64 - m as f64) / d as f64).collect()),
        LogNormal(m, d) => Some(v.iter().map(|x| ((*x as f64).ln() - m as f64) / d as f64).collect()),
        _ => None,
    };
    if let Some(z) = z {
        for t in [2., 2.5, 3., 3.5, 3.75, 4., 4.25, 5., 6.] {
            for (k, side) in [(z.iter().filter(|z| **z > t).count(), "above"), (z.iter().filter(|z| **z < -t).count(), "below")] {
                stat::binomial(k as u64, z.len() as u64, 1. - stat::phi(t) + 3e-7, &format!("{:?}: {} deviations {} the mean", d, t, side))?;
            }
        }
    }
    rep.add("draws", v.len() as u64);
    rep.distinct(&(format!("{:?}", d), s, way));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("many", cfg.q(48, 3_000), 9., naive, many);
    cfg.stage("large", cfg.q(6_000, 150_000), 8., naive, large);
    cfg.stage("history", cfg.q(2_500, 80_000), 8., naive, history);
    cfg.stage("parameters", cfg.q(6_000, 150_000), 8., naive, parameters);
    cfg.stage("fillers", cfg.q(3_000, 80_000), 5., || (), fillers);
    cfg.stage("threads", cfg.q(600, 20_000), 6., naive, threads);
    cfg.finish(
        "draws of random tensors, fillers, initializers and parameters with random shapes and distribution parameters: shape, range, Kolmogorov distance, mean, tails, correlation and repetition at several distances, per position and over successive draws, on several threads, with refused draws in between",
        &["each statistical test has a false alarm probability below 1e-12; deviations below its resolution (a few percent per case) are not seen"],
    )
}
