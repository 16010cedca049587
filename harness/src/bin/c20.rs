//! C20: argmax, argmin, argsort.
use hcore::ensure;
use hcore::gen;
use hcore::ops::*;
use hcore::refm::*;
use hcore::util::*;
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};
use prima_undine::{Node, Parameter, Tensor};

fn values(r: &mut Rng, n: usize) -> (Vec<f32>, &'static str) {
    let kind = r.below(8);
    let mut v: Vec<f32> = (0..n)
        .map(|i| match kind {
            0 => r.range(-2, 2) as f32,
            1 => r.range(0, 1) as f32,
            2 => r.uni(-5., 5.) as f32,
            3 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, 0., 1., f32::MAX, f32::MIN]),
            4 => *r.pick(&[0f32, -0., 1e-45, -1e-45, f32::MIN_POSITIVE]),
            5 => i as f32,
            6 => -(i as f32),
            _ => loop {
                let x = f32::from_bits(r.next() as u32);
                if !x.is_nan() {
                    break x;
                }
            },
        })
        .collect();
    if kind == 5 || kind == 6 {
        if r.chance(0.5) {
            r.shuffle(&mut v);
        }
    }
    (v, ["small integers", "two values", "reals", "extremes", "zeros", "ascending", "descending", "bit patterns"][kind as usize])
}

fn positions(s: &Sh, c: &[u32; MD], b: u32, dim: u32) -> Vec<usize> {
    let mut c = *c;
    (0..s.at(dim))
        .map(|i| {
            if (dim as usize) < MD {
                c[dim as usize] = i;
            }
            s.index(&c, b)
        })
        .collect()
}

fn judge(s: &Sh, v: &[f32], dim: u32, amax: &[u32], amin: &[u32], asort: &[u32]) -> Result<(), String> {
    let red = s.with(dim, 1);
    ensure!(amax.len() == red.n(), "argmax returned {} numbers instead of {}", amax.len(), red.n());
    ensure!(amin.len() == red.n(), "argmin returned {} numbers instead of {}", amin.len(), red.n());
    ensure!(asort.len() == s.n(), "argsort returned {} numbers instead of {}", asort.len(), s.n());
    let mut err = Ok(());
    let mut seen = vec![false; s.n()];
    red.each(|c, b| {
        if err.is_err() {
            return;
        }
        let pos = positions(s, c, b, dim);
        let at = red.index(c, b);
        let (mut hi, mut lo) = (0, 0);
        for i in 1..pos.len() {
            if v[pos[i]] > v[pos[hi]] {
                hi = i
            }
            if v[pos[i]] < v[pos[lo]] {
                lo = i
            }
        }
        let line: Vec<f32> = pos.iter().map(|&p| v[p]).collect();
        if amax[at] as usize != hi {
            err = Err(format!("argmax of line {:?} is {}, expected {}", line, amax[at], hi));
        } else if amin[at] as usize != lo {
            err = Err(format!("argmin of line {:?} is {}, expected {}", line, amin[at], lo));
        } else {
            let o: Vec<u32> = pos.iter().map(|&p| asort[p]).collect();
            for (i, &p) in o.iter().enumerate() {
                let p = p as usize;
                if pos.len() <= 64 && !pos.contains(&p) || p >= s.n() || seen[p] {
                    err = Err(format!("argsort of line {:?} at {:?} lists {:?}", line, pos, o));
                    return;
                }
                seen[p] = true;
                if i > 0 && !(v[o[i - 1] as usize] <= v[p]) {
                    err = Err(format!("argsort of line {:?} at {:?} lists {:?}, which is not ascending", line, pos, o));
                    return;
                }
            }
            if pos.len() > 64 {
                let mut q: Vec<usize> = o.iter().map(|&p| p as usize).collect();
                q.sort_unstable();
                let mut p2 = pos.clone();
                p2.sort_unstable();
                if q != p2 {
                    err = Err(format!("argsort lists other elements than those at {:?}: {:?}", pos, o));
                }
            }
        }
    });
    err
}

fn run(dev: &Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let dev = *dev;
    let mut s = gen::shape(r, max);
    if max > 1000 && r.chance(0.7) {
        // long lines
        let n = if r.chance(0.5) { r.range(100, max as i64 / 2) } else { r.range(max as i64 / 2, max as i64) } as u32;
        let k = r.below(3) as u32;
        s = Sh::scalar().with(k, n);
        if r.chance(0.5) {
            let j = (k + 1 + r.below(2) as u32) % 3;
            s = s.with(j, r.range(1, 4) as u32);
        }
        s = s.with_b(r.range(1, 3) as u32);
    }
    let (mut v, kind) = values(r, s.n());
    if r.chance(0.4) {
        // extremes close to the end of lines
        for _ in 0..r.range(1, 4) {
            let k = s.n() - 1 - (gen::tail(r, 1, s.n() as u64) as usize - 1).min(s.n() - 1);
            v[k] = *r.pick(&[f32::MAX, f32::MIN]);
        }
    }
    let v = v;
    // reading past the values of the tensor would meet extremes
    let x = tensor(dev, s, &v);
    let dim = gen::any_dim(r);
    let dim = if r.chance(0.8) { dim % (s.depth() as u32 + 1) } else { dim };
    let long = (0..MD as u32).max_by_key(|&d| s.at(d)).unwrap();
    let dim = if s.at(long) > 1000 && r.chance(0.7) { long } else { dim };
    let what = |m: &str| format!("{} shape {:?} along {} ({}) {:?}", m, s, dim, kind, &v[..v.len().min(200)]);
    let call = |m: &str, f: &dyn Fn() -> (Vec<u32>, Vec<u32>, Vec<u32>)| -> Result<(Vec<u32>, Vec<u32>, Vec<u32>), String> {
        let (a, b, c) = catch(|| f()).map_err(|e| format!("{} panicked: {}", what(m), e))?;
        judge(&s, &v, dim, &a, &b, &c).map_err(|e| format!("{}: {}", what(m), e))?;
        Ok((a, b, c))
    };
    let t = call("tensor", &|| (x.argmax(dim), x.argmin(dim), x.argsort(dim)))?;
    match r.below(4) {
        0 => {
            let d = call("device", &|| (dev.argmax(&x, dim), dev.argmin(&x, dim), dev.argsort(&x, dim)))?;
            ensure!(d == t, "{}: device calls and tensor methods differ", what(""));
        }
        1 => {
            let xs: &'static Tensor<'static> = unsafe { &*(&x as *const _) };
            let view = Tensor::from(xs);
            let d = call("view", &|| (view.argmax(dim), view.argmin(dim), view.argsort(dim)))?;
            ensure!(d == t, "{}: view and tensor differ", what(""));
        }
        2 if s.b == 1 => {
            let mut p = Parameter::new(tensor(dev, s, &v), tensor(dev, s, &v));
            let n = Node::from(&mut p);
            let d = call("parameter node", &|| (n.argmax(dim), n.argmin(dim), n.argsort(dim)))?;
            ensure!(d == t, "{}: node and tensor differ", what(""));
            rep.count("nodes");
        }
        _ => {
            // an operation that was not evaluated yet
            let n = Node::from(&x) * 1.;
            let m = n.reshape(s.real());
            let d = call("node", &|| (m.argmax(dim), m.argmin(dim), m.argsort(dim)))?;
            ensure!(d == t, "{}: node and tensor differ", what(""));
            rep.count("nodes");
        }
    }
    rep.count(kind);
    rep.add("lines", s.with(dim, 1).n() as u64);
    rep.max("line", s.at(dim) as u64);
    rep.distinct(&(s, dim, v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    rep.sample(|| what(""));
    Ok(())
}

/// Lines longer than single precision can count.
fn giant(dev: &Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = (1u32 << 24) + gen::tail(r, 1, 1 << 20) as u32;
    let (low, high) = (r.us(2), r.us(2));
    let mut v = vec![0f32; n as usize];
    let at = |r: &mut Rng| if r.chance(0.7) { n as usize - gen::tail(r, 1, n as u64 / 8) as usize } else { r.us(n as usize) };
    let mut v2: Vec<(usize, f32)> = vec![];
    for _ in 0..1 + low {
        v2.push((at(r), -1.));
    }
    for _ in 0..1 + high {
        v2.push((at(r), 1.));
    }
    v2.iter().for_each(|&(i, x)| v[i] = x);
    let first = |best: f32| v.iter().position(|&x| x == best);
    let s = *r.pick(&[Sh::new(&[n], 1), Sh::new(&[1, n], 1), Sh::new(&[1, 1, 1, n], 1)]);
    let x = tensor(*dev, s, &v);
    let dim = s.depth() as u32 - 1;
    let (a, b) = (x.argmax(dim), x.argmin(dim));
    let hi = v.iter().copied().fold(f32::MIN, f32::max);
    let lo = v.iter().copied().fold(f32::MAX, f32::min);
    ensure!(a.len() == 1 && Some(a[0] as usize) == first(hi), "argmax of {} zeros except {:?} is {:?}", n, v2, a);
    ensure!(b.len() == 1 && Some(b[0] as usize) == first(lo), "argmin of {} zeros except {:?} is {:?}", n, v2, b);
    rep.max("line", n as u64);
    rep.count("giant_lines");
    rep.distinct(&(n, v2.iter().map(|x| x.0).collect::<Vec<_>>()));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("small", cfg.q(400_000, 10_000_000), 12., naive, |d, r, rep| run(d, r, rep, 60));
    cfg.stage("long", cfg.q(6_000, 200_000), 12., naive, |d, r, rep| run(d, r, rep, 8000));
    cfg.stage("huge", cfg.q(800, 20_000), 8., naive, |d, r, rep| run(d, r, rep, 300_000));
    cfg.stage("giant", cfg.q(8, 200), 8., naive, |d, r, rep| giant(d, r, rep));
    cfg.finish(
        "argmax, argmin and argsort through tensors, views, device calls, parameter nodes and lazily evaluated nodes over random shapes, batches and dimensions (also beyond the depth) with ties, signed zeros, infinities and arbitrary bit patterns except NaN; each line's results are checked against the line: first extreme, permutation of the line's own positions in ascending order of values",
        &["values are not NaN"],
    )
}
