//! C19: the contributed layers.
use hcore::ensure;
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::refm::*;
use hcore::single::{value, vjp, Sink};
use hcore::stat;
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Parameter, Tensor};
use prima_undine_contrib::functions::ContribFunctions;

const LAYERS: &[&str] = &["Mean", "BatchMean", "SliceSum", "BatchNorm", "BatchNorm", "LayerNorm", "LayerNorm", "Dropout", "DropoutDim"];

/// Dropout of a tensor or node: the mask is read off the result; also the gradient.
/// Returns whether each element was kept.
fn drop_once(dev: Dev, r: &mut Rng, s: Sh, dim: Option<u32>, rate: f32, node: bool) -> Result<Vec<bool>, String> {
    let x: Vec<f32> = (0..s.n()).map(|_| { let v = r.uni(0.5, 4.) as f32; if r.chance(0.5) { -v } else { v } }).collect();
    let t = tensor(dev, s, &x);
    let what = || format!("dropout {:?} of {:?}, rate {}, node {}", dim, s, rate, node);
    let mut grad = None;
    let y = if node {
        let mut p = Parameter::new(tensor(dev, s.with_b(1), &x[..s.vol() as usize]), tensor(dev, s.with_b(1), &vec![0.; s.vol() as usize]));
        let use_p = s.b == 1 && r.chance(0.5);
        let n = if use_p { Node::from(&mut p) } else { Node::from(&t) };
        let y = match dim {
            Some(d) => n.dropout_dim(d, rate, true),
            None => n.dropout(rate, true),
        };
        ensure!(Sh::of(y.shape()) == s, "{}: shape {:?}", what(), y.shape());
        let w: Vec<f32> = (0..s.n()).map(|_| r.uni(0.5, 2.) as f32).collect();
        if r.chance(0.5) {
            y.forward();
        }
        let sink = Node::create(Sink { dev, w: vec![tensor(dev, s, &w)] }, &[&y]).pop().unwrap();
        sink.backward();
        let v = y.to_vec();
        if r.chance(0.3) {
            // evaluated and differentiated again: the mask stays
            sink.backward();
            ensure!(y.to_vec() == v, "{}: another value when queried again", what());
        }
        let g = n.inner_gradient().to_vec();
        grad = Some((w, g));
        v
    } else {
        let y = match dim {
            Some(d) => t.dropout_dim(d, rate, true),
            None => t.dropout(rate, true),
        };
        ensure!(Sh::of(y.shape()) == s, "{}: shape {:?}", what(), y.shape());
        y.to_vec()
    };
    ensure!(y.len() == x.len(), "{}: {} elements", what(), y.len());
    let p = 1. - rate as f64;
    let mut kept = vec![];
    for i in 0..x.len() {
        let full = x[i] as f64 / p;
        let k = y[i] != 0.;
        ensure!(!k || (y[i] as f64 - full).abs() <= 1e-6 * full.abs() + p.recip() * 1e-7 * full.abs(), "{}: element {} became {} where 0 or {} is expected", what(), x[i], y[i], full);
        kept.push(k);
    }
    if let Some((w, g)) = grad {
        for i in 0..x.len() {
            let want = if kept[i] { w[i] as f64 / p } else { 0. };
            ensure!((g[i] as f64 - want).abs() <= 1e-6 * want + p.recip() * 1e-7 * want, "{}: element {} ({}) has the gradient {}, expected {}", what(), i, if kept[i] { "kept" } else { "zeroed" }, g[i], want);
        }
    }
    Ok(kept)
}
fn rate(r: &mut Rng) -> f32 {
    match r.us(6) {
        0 => 0.5,
        1 => *r.pick(&[0.01f32, 0.99, 0.1, 0.9, 0.001, 0.999]),
        _ => r.uni(0.02, 0.98) as f32,
    }
}

/// One mask over a large tensor.
fn masks(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let dim = if r.chance(0.6) { Some(r.below(5) as u32) } else { None };
    let mut s = gen::shape(r, 200);
    while s.size() / dim.map_or(1, |d| s.at(d) as u64) < 2000 {
        if r.chance(0.5) {
            s.b += r.range(1, 40) as u32;
        } else {
            let k = r.us(4);
            s.d[k] += r.range(1, 6) as u32;
        }
    }
    if s.size() > 60_000 {
        return Ok(());
    }
    let rt = rate(r);
    let node = r.chance(0.5);
    let kept = drop_once(*dev, r, s, dim, rt, node)?;
    let what = format!("dropout {:?} of {:?}, rate {}, node {}", dim, s, rt, node);
    let lines = match dim {
        None => kept,
        Some(d) => {
            // whole lines along the dimension
            let t = RT::<f64> { s, x: kept.iter().map(|k| *k as u32 as f64).collect() };
            let mut mixed = None;
            let l = t.reduce(d, |l| {
                if l.iter().any(|x| *x != l[0]) {
                    mixed = Some(l.to_vec());
                }
                l[0]
            });
            ensure!(mixed.is_none(), "{}: a line is kept in parts {:?}", what, mixed.unwrap());
            l.x.iter().map(|x| *x == 1.).collect()
        }
    };
    let ls = match dim {
        None => s,
        Some(d) => s.with(d, 1),
    };
    stat::coins(&lines, 1. - rt as f64, &[1, 2, 3, ls.at(0) as usize, ls.vol() as usize, 2 * ls.vol() as usize], &what)?;
    let v = ls.vol() as usize;
    let k = r.us(ls.b as usize);
    stat::coins(&lines[k * v..(k + 1) * v], 1. - rt as f64, &[1], &what)?;
    rep.add("mask_decisions", lines.len() as u64);
    rep.distinct(&(format!("{:?}", dim), s, rt.to_bits()));
    rep.sample(|| what.clone());
    Ok(())
}

/// Each position over many applications.
fn positions(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut s = gen::shape(r, 30);
    let dim = if r.chance(0.5) { Some(r.below(4) as u32) } else { None };
    if let Some(d) = dim {
        if r.chance(0.4) {
            // one line per sample
            let e = if r.chance(0.2) { 1 } else { r.range(2, 5) as u32 };
            s = Sh::scalar().with(d, e).with_b(r.range(2, 6) as u32);
        }
    }
    let rt = rate(r);
    let mut all = vec![];
    let nodes = r.us(3);
    for i in 0..600 {
        all.push(drop_once(*dev, r, s, dim, rt, nodes == 0 || nodes == 1 && i % 2 == 0)?);
    }
    let what = format!("dropout {:?} of {:?}, rate {}", dim, s, rt);
    for p in 0..s.n() {
        let l: Vec<bool> = all.iter().map(|k| k[p]).collect();
        stat::coins(&l, 1. - rt as f64, &[1, 2], &format!("position {} of {}", p, what))?;
    }
    // positions that are not on one line have nothing to do with each other
    let line = |p: usize| {
        let (v, d) = (s.vol() as usize, dim.map(|d| d as usize));
        let below: usize = s.d[..d.unwrap_or(0)].iter().map(|e| *e as usize).product();
        match d {
            None => p,
            Some(d) => p / v * v + p % v / (below * s.d[d] as usize) * (below * s.d[d] as usize) + p % below,
        }
    };
    let q = 2. * rt as f64 * (1. - rt as f64);
    for _ in 0..60 {
        let (i, j) = (r.us(s.n()), r.us(s.n()));
        let l: Vec<bool> = all.iter().map(|k| k[i] != k[j]).collect();
        if line(i) == line(j) {
            ensure!(l.iter().all(|x| !x), "positions {} and {} of {} are on one line but not kept together", i, j, what);
        } else {
            stat::coins(&l, q, &[], &format!("difference of the positions {} and {} of {}", i, j, what))?;
            rep.count("pairs_of_positions");
        }
    }
    rep.add("mask_decisions", (600 * s.n()) as u64);
    rep.distinct(&(format!("{:?}", dim), s, rt.to_bits()));
    Ok(())
}

/// Disabled, rate 0, rates of 1 and more; gradients.
fn edges(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let dev = *dev;
    let s = gen::shape(r, 100);
    let x: Vec<f32> = (0..s.n()).map(|_| r.uni(-9., 9.) as f32).collect();
    let dim = if r.chance(0.5) { Some(r.below(8) as u32) } else { None };
    let (rate, enabled) = match r.us(3) {
        0 => (*r.pick(&[0f32, 0.3, 1., 2., -1., f32::NAN, f32::INFINITY]), false),
        1 => (0., true),
        _ => (*r.pick(&[1f32, 1.0001, 2., 1e30, f32::INFINITY]), true),
    };
    let zero = enabled && rate >= 1.;
    let what = || format!("dropout {:?} of {:?}, rate {}, enabled {}", dim, s, rate, enabled);
    let t = tensor(dev, s, &x);
    let y: Tensor = match dim {
        Some(d) => t.dropout_dim(d, rate, enabled),
        None => t.dropout(rate, enabled),
    };
    let w: Vec<f32> = (0..s.n()).map(|_| r.uni(-2., 2.) as f32).collect();
    let n = Node::from(&t);
    let ny = match dim {
        Some(d) => n.dropout_dim(d, rate, enabled),
        None => n.dropout(rate, enabled),
    };
    let sink = Node::create(Sink { dev, w: vec![tensor(dev, s, &w)] }, &[&ny]).pop().unwrap();
    sink.backward();
    for (k, v) in [(0, y.to_vec()), (1, ny.to_vec()), (2, n.inner_gradient().to_vec())] {
        let src = if k == 2 { &w } else { &x };
        ensure!(v.len() == src.len(), "{}: {} elements", what(), v.len());
        for i in 0..v.len() {
            let want = if zero { 0. } else { src[i] };
            ensure!(v[i] == want, "{}: {} of {} is {}, expected {}", what(), ["the tensor", "the node", "the gradient"][k], src[i], v[i], want);
        }
    }
    ensure!(Sh::of(y.shape()) == s && Sh::of(ny.shape()) == s, "{}: shapes {:?} {:?}", what(), y.shape(), ny.shape());
    // batch normalization in use
    let g = tensor(dev, Sh::scalar(), &[3.]);
    let b = tensor(dev, Sh::scalar(), &[1.]);
    let y = t.batch_normalization(&g, &b, 1e-3, false);
    ensure!(y.to_vec() == x && Sh::of(y.shape()) == s, "disabled batch normalization of {:?} changed the input", s);
    rep.distinct(&(s, rate.to_bits(), enabled, format!("{:?}", dim)));
    rep.sample(what);
    Ok(())
}

/// Normalized values have zero mean and unit variance (reduced by eps), whatever the magnitudes.
fn normalized(dev: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let dev = *dev;
    let layer = r.chance(0.5);
    let mut s = gen::shape(r, 200);
    if layer && s.vol() < 2 {
        s.d[0] = 2 + r.below(6) as u32;
    }
    if !layer && s.b < 2 {
        s.b = 2 + r.below(6) as u32;
    }
    let scale = *r.pick(&[1f32, 0.01, 30., 1e4, 1e-4]);
    let shift = *r.pick(&[0f32, 1., -5.]);
    let eps = *r.pick(&[1e-6f32, 1e-3, 0.5, 10.]);
    let x: Vec<f32> = (0..s.n()).map(|_| scale * (shift + r.uni(-1., 1.) as f32)).collect();
    let t = tensor(dev, s, &x);
    let one = tensor(dev, Sh::scalar(), &[1.]);
    let zero = tensor(dev, Sh::scalar(), &[0.]);
    let node = r.chance(0.5);
    let y = if node {
        let (n, g, b) = (Node::from(&t), Node::from(&one), Node::from(&zero));
        if layer { n.layer_normalization(&g, &b, eps).to_vec() } else { n.batch_normalization(&g, &b, eps, true).to_vec() }
    } else if layer {
        t.layer_normalization(&one, &zero, eps).to_vec()
    } else {
        t.batch_normalization(&one, &zero, eps, true).to_vec()
    };
    let (vol, nb) = (s.vol() as usize, s.b as usize);
    let lines: Vec<Vec<usize>> = if layer {
        (0..nb).map(|b| (b * vol..(b + 1) * vol).collect()).collect()
    } else {
        (0..vol).map(|i| (0..nb).map(|b| b * vol + i).collect()).collect()
    };
    for l in lines {
        let n = l.len() as f64;
        let xm = l.iter().map(|i| x[*i] as f64).sum::<f64>() / n;
        let xv = l.iter().map(|i| (x[*i] as f64 - xm).powi(2)).sum::<f64>() / n;
        let big = l.iter().map(|i| (x[*i] as f64).abs()).fold(0., f64::max);
        let sd = (xv + eps as f64).sqrt();
        // rounding of the mean against the spread
        let tol = 3e-7 * (n + 4.) * (big + sd) / sd + 1e-6;
        if tol > 0.05 {
            rep.count("skipped_ill_conditioned");
            continue;
        }
        for i in &l {
            let want = (x[*i] as f64 - xm) / sd;
            ensure!((y[*i] as f64 - want).abs() <= tol * (1. + want.abs()), "{} normalization of {:?} (eps {}, node {}): {} became {}, expected {} (tolerance {:e})", if layer { "layer" } else { "batch" }, s, eps, node, x[*i], y[*i], want, tol);
            rep.count("normalized_values");
        }
    }
    rep.distinct(&(s, layer, eps.to_bits(), scale.to_bits()));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("values", cfg.q(480000, 12000000), 7., naive, |d, r, rep| value(*d, r, rep, LAYERS, 200, Vals::Plain, true));
    cfg.stage("integers", cfg.q(120000, 2400000), 3., naive, |d, r, rep| value(*d, r, rep, &["Mean", "BatchMean", "SliceSum"], 200, Vals::Int, true));
    cfg.stage("large", cfg.q(16000, 400000), 4., naive, |d, r, rep| value(*d, r, rep, LAYERS, 5000, Vals::Plain, true));
    cfg.stage("normalized", cfg.q(320000, 8000000), 4., naive, normalized);
    cfg.stage("gradients", cfg.q(240000, 6000000), 8., naive, |d, r, rep| vjp(*d, r, rep, LAYERS, 60, Vals::Smooth));
    cfg.stage("edges", cfg.q(240000, 6000000), 4., naive, edges);
    cfg.stage("masks", cfg.q(24000, 600000), 6., naive, masks);
    cfg.stage("positions", cfg.q(6000, 160000), 6., naive, positions);
    cfg.finish(
        "calls of the contributed functions on random tensors and nodes: values against the reference with its error bound, gradients against forward-mode derivatives, normalized values against directly computed statistics; dropout masks read off results and gradients, their frequency and independence tested per call and per position",
        &["inputs are finite", "statistical tests have false alarm probabilities below 1e-12"],
    )
}
