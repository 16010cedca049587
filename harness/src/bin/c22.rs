//! C22: the algebra of shapes.
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::BasicFunctions;
use prima_undine::{shape, Shape, Tensor};

/// Extents (ones beyond), batch.
#[derive(Clone, Debug, PartialEq, Hash)]
struct M {
    d: Vec<u64>,
    b: u64,
}
const MAX: u128 = u32::MAX as u128;
impl M {
    fn new(d: &[u64], b: u64) -> M {
        let mut d = d.to_vec();
        while d.last() == Some(&1) {
            d.pop();
        }
        M { d, b }
    }
    fn ok(&self) -> bool {
        // a zero anywhere is refused whatever the rest is
        if self.d.len() > 8 || self.b == 0 || self.d.contains(&0) {
            return false;
        }
        self.vol().saturating_mul(self.b as u128) <= MAX
    }
    fn vol(&self) -> u128 {
        self.d.iter().fold(1u128, |a, x| a.saturating_mul(*x as u128))
    }
    fn at(&self, i: u32) -> u64 {
        self.d.get(i as usize).copied().unwrap_or(1)
    }
    fn lower(&self, k: u32) -> u128 {
        self.d.iter().take(k as usize).fold(1u128, |a, x| a * *x as u128)
    }
    fn with(&self, i: u32, n: u64) -> Option<M> {
        if i >= 8 {
            return None;
        }
        let mut d: Vec<u64> = (0..8).map(|k| self.at(k)).collect();
        d[i as usize] = n;
        let m = M::new(&d, self.b);
        if m.ok() {
            Some(m)
        } else {
            None
        }
    }
    fn with_b(&self, b: u64) -> Option<M> {
        let m = M { d: self.d.clone(), b };
        if m.ok() {
            Some(m)
        } else {
            None
        }
    }
    fn same_except(&self, o: &M, dim: u32) -> bool {
        (0..8).all(|i| i == dim || self.at(i) == o.at(i))
    }
}

fn extent(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=2 => 1,
        3..=6 => r.range(1, 5) as u64,
        7 => r.range(1, 70) as u64,
        8 => *r.pick(&[255, 256, 257, 641, 1024, 65535, 65536, 65537]),
        _ => *r.pick(&[6700417, 1 << 30, 1 << 31, (1 << 31) + 1, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 24, 0]),
    }
}
fn dims(r: &mut Rng) -> Vec<u64> {
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10]);
    let small = r.chance(0.7);
    (0..n).map(|_| if small { *r.pick(&[1u64, 1, 2, 3, 4, 5, 7]) } else { extent(r) }).collect()
}
fn dim(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => *r.pick(&[8, 9, 31, 32, 255, 256, 1 << 31, u32::MAX, u32::MAX - 1]),
        _ => r.below(8) as u32,
    }
}

/// Everything observable about one shape.
fn agree(s: &Shape, m: &M) -> Result<(), String> {
    let d: Vec<u64> = s.dims().iter().map(|x| *x as u64).collect();
    ensure!(d == m.d, "dims() is {:?}, expected {:?}", d, m);
    ensure!(s.depth() as usize == m.d.len(), "depth {} of {:?}", s.depth(), m);
    ensure!(s.batch() as u64 == m.b, "batch {} of {:?}", s.batch(), m);
    ensure!(s.volume() as u128 == m.vol(), "volume {} of {:?}", s.volume(), m);
    ensure!(s.size() as u128 == m.vol() * m.b as u128, "size {} of {:?}", s.size(), m);
    for i in (0..11).chain([31, 32, 255, 1 << 31, u32::MAX]) {
        ensure!(s[i] as u64 == m.at(i), "extent {} of {:?} is {}", i, m, s[i]);
        ensure!(s.lower_volume(i) as u128 == m.lower(i), "lower volume {} of {:?} is {}", i, m, s.lower_volume(i));
    }
    ensure!(s.has_batch() == (m.b > 1), "has_batch of {:?} is {}", m, s.has_batch());
    ensure!(s.is_scalar() == m.d.is_empty(), "is_scalar of {:?}", m);
    ensure!(s.is_column_vector() == (m.d.len() <= 1), "is_column_vector of {:?}", m);
    ensure!(s.is_matrix() == (m.d.len() <= 2), "is_matrix of {:?}", m);
    ensure!(*s == *s, "{:?} differs from itself", m);
    Ok(())
}
fn pair(s: &Shape, m: &M, t: &Shape, n: &M, r: &mut Rng) -> Result<(), String> {
    let eq = m == n;
    ensure!((s == t) == eq && (t == s) == eq && (s != t) != eq, "{:?} == {:?} is {}", m, n, s == t);
    let sd = m.d == n.d;
    ensure!(s.has_same_dims(*t) == sd && t.has_same_dims(*s) == sd, "same dimensions of {:?} and {:?}: {}", m, n, s.has_same_dims(*t));
    let cb = m.b == n.b || m.b == 1 || n.b == 1;
    ensure!(s.has_compatible_batch(*t) == cb && t.has_compatible_batch(*s) == cb, "batch compatibility of {:?} and {:?}: {}", m, n, s.has_compatible_batch(*t));
    let any = dim(r);
    for k in (0..9).chain([any, u32::MAX]) {
        let w = m.same_except(n, k);
        let got = catch(|| (s.has_same_loo_dims(*t, k), t.has_same_loo_dims(*s, k)));
        ensure!(got == Ok((w, w)), "same dimensions except {} of {:?} and {:?}: {:?}, expected {}", k, m, n, got, w);
    }
    Ok(())
}
/// Built once more from scratch, in other ways.
fn rebuilt(s: &Shape, m: &M, r: &mut Rng) -> Result<(), String> {
    let mut d: Vec<u32> = m.d.iter().map(|x| *x as u32).collect();
    while d.len() < 8 && r.chance(0.4) {
        d.push(1);
    }
    let t = Shape::new(&d, m.b as u32);
    ensure!(t == *s, "{:?} built anew from {:?} differs: {:?} and {:?}", m, d, t, s);
    // in a random order of extents
    let mut o: Vec<usize> = (0..m.d.len()).collect();
    r.shuffle(&mut o);
    let mut t = Shape::new(&[], 1);
    let first = r.chance(0.5);
    if first {
        t.update_batch(m.b as u32);
    }
    for k in o {
        t.update_dim(k as u32, m.d[k] as u32);
    }
    if !first {
        t = t.resize_batch(m.b as u32);
    }
    ensure!(t == *s, "{:?} built step by step differs: {:?} and {:?}", m, t, s);
    agree(&t, m)?;
    let j = serde_json::to_string(s).map_err(|e| e.to_string())?;
    let t: Shape = serde_json::from_str(&j).map_err(|e| format!("{} cannot be read: {}", j, e))?;
    ensure!(t == *s, "{:?} reloaded from {} differs: {:?}", m, j, t);
    agree(&t, m)?;
    let b = bincode::serialize(s).map_err(|e| e.to_string())?;
    let t: Shape = bincode::deserialize(&b).map_err(|e| format!("{:?} cannot be read: {}", m, e))?;
    ensure!(t == *s, "{:?} reloaded differs: {:?}", m, t);
    agree(&t, m)?;
    Ok(())
}

fn history(_: &mut (), r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut log = vec![];
    let mut have: Option<(Shape, M)> = None;
    let mut others: Vec<(Shape, M)> = vec![];
    for _ in 0..r.range(3, 14) {
        let q = r.below(7);
        if have.is_none() || q == 0 {
            let d = dims(r);
            let b = if r.chance(0.5) { 1 } else { extent(r) };
            // nine extents are refused even if the last ones are one
            let ok = d.len() <= 8 && M::new(&d, b).ok();
            let dd: Vec<u32> = d.iter().map(|x| *x as u32).collect();
            let s = catch(|| Shape::new(&dd, b as u32));
            log.push(format!("new {:?}x{}", d, b));
            ensure!(s.is_ok() == ok, "{:?}: {}", log, if ok { "refused" } else { "accepted" });
            if let Ok(s) = s {
                let m = M::new(&d, b);
                agree(&s, &m).map_err(|e| format!("{:?}: {}", log, e))?;
                if let Some(x) = have.replace((s, m)) {
                    others.push(x);
                }
                rep.count("built");
            } else {
                rep.count("refused");
            }
            continue;
        }
        let (s, m) = have.clone().unwrap();
        let in_place = r.chance(0.5);
        let (res, want) = if q <= 4 {
            let k = dim(r);
            let n = if r.chance(0.25) { m.at(k) } else if r.chance(0.25) { 1 } else { extent(r) };
            log.push(format!("{} dim {} := {}", if in_place { "update" } else { "resize" }, k, n));
            let mut t = s;
            let res = if in_place { catch(|| t.update_dim(k, n as u32)).map(|_| t) } else { catch(|| s.resize_dim(k, n as u32)) };
            if res.is_err() && in_place {
                agree(&t, &m).map_err(|e| format!("{:?} was refused and changed the shape: {}", log, e))?;
            }
            (res, m.with(k, n))
        } else {
            let n = if r.chance(0.3) { 1 } else { extent(r) };
            log.push(format!("{} batch := {}", if in_place { "update" } else { "resize" }, n));
            let mut t = s;
            let res = if in_place { catch(|| t.update_batch(n as u32)).map(|_| t) } else { catch(|| s.resize_batch(n as u32)) };
            if res.is_err() && in_place {
                agree(&t, &m).map_err(|e| format!("{:?} was refused and changed the shape: {}", log, e))?;
            }
            (res, m.with_b(n))
        };
        agree(&s, &m).map_err(|e| format!("{:?}: the shape it was made from changed: {}", log, e))?;
        ensure!(res.is_ok() == want.is_some(), "{:?} of {:?}: {}", log, m, if want.is_some() { "refused" } else { "accepted" });
        match (res, want) {
            (Ok(t), Some(n)) => {
                agree(&t, &n).map_err(|e| format!("{:?}: {}", log, e))?;
                pair(&s, &m, &t, &n, r).map_err(|e| format!("{:?}: {}", log, e))?;
                others.push((s, m));
                have = Some((t, n));
                rep.count("changed");
            }
            _ => rep.count("refused"),
        }
    }
    let (s, m) = match have {
        Some(x) => x,
        None => return Ok(()),
    };
    rebuilt(&s, &m, r).map_err(|e| format!("{:?}: {}", log, e))?;
    for (t, n) in &others {
        pair(&s, &m, t, n, r).map_err(|e| format!("{:?}: {}", log, e))?;
        rep.count("pairs");
    }
    // tensors take any shape of the same size
    if m.vol() * (m.b as u128) <= 4096 {
        let n = (m.vol() * m.b as u128) as usize;
        let v: Vec<f32> = (0..n).map(|i| i as f32).collect();
        let mut t: Tensor<'static> = Tensor::new_host_tensor(s, v.clone());
        thread_local!(static DEV: hcore::ops::Dev = hcore::ops::naive());
        t.move_to_device(DEV.with(|d| *d));
        let (u, mu) = others.get(0).cloned().unwrap_or((Shape::new(&[n as u32], 1), M::new(&[n as u64], 1)));
        let ok = mu.vol() * mu.b as u128 == n as u128;
        let got = catch(|| t.update_shape(u));
        ensure!(got.is_ok() == ok, "{:?}: tensor of shape {:?} taking {:?}: {:?}", log, m, mu, got);
        agree(&t.shape(), if ok { &mu } else { &m }).map_err(|e| format!("{:?}: {}", log, e))?;
        ensure!(check::same_bits(&t.to_vec(), &v), "{:?}: changing the shape changed the values", log);
        rep.count("tensor_shapes");
    }
    rep.distinct(&log);
    rep.sample(|| log.join("; "));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("history", cfg.q(400_000, 10_000_000), 15., || (), |s, r, rep| history(s, r, rep));
    cfg.stage("macro", 1, 5., || (), |_, _, rep| {
        for (s, m) in [
            (shape![], M::new(&[], 1)),
            (shape![;3], M::new(&[], 3)),
            (shape![2], M::new(&[2], 1)),
            (shape![2, 1, 3], M::new(&[2, 1, 3], 1)),
            (shape![2, 1, 3; 4], M::new(&[2, 1, 3], 4)),
            (shape![1, 1; 1], M::new(&[], 1)),
            (shape![1, 2, 3, 4, 5, 6, 7, 8; 9], M::new(&[1, 2, 3, 4, 5, 6, 7, 8], 9)),
        ] {
            agree(&s, &m)?;
        }
        rep.distinct(&0);
        Ok(())
    });
    cfg.finish(
        "histories of building, resizing and updating shapes with extents from 0 to 2^32-1 and dimension numbers up to 2^32-1; after every step acceptance and everything observable (extents, depth, volumes, size, predicates, equality and pairwise predicates with earlier shapes) is compared with a 128-bit model; final shapes are built anew in other ways, reloaded from JSON and bincode and given to tensors",
        &[],
    )
}
