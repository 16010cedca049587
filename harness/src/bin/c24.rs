//! C24: deep and wide graphs.
use hcore::ensure;
use hcore::interp::{self, Hook};
use hcore::ops::*;
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Parameter, Shape, Tensor};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// Counts kernel calls.
#[derive(Default)]
struct Count {
    fw: AtomicU64,
    bw: AtomicU64,
    /// more calls than this are too many
    limit: AtomicU64,
}
impl Count {
    fn tick(&self, c: &AtomicU64) {
        c.fetch_add(1, Ordering::Relaxed);
        if self.fw.load(Ordering::Relaxed) + self.bw.load(Ordering::Relaxed) > self.limit.load(Ordering::Relaxed) {
            panic!("too many kernel calls");
        }
    }
}
impl Hook for Count {
    fn fw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.tick(&self.fw);
        d.call_fw_impl(name, xs, u, f, ys)
    }
    fn bw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.tick(&self.bw);
        d.call_bw_impl(name, xs, ys, gys, u, f, gx)
    }
}
struct Bench {
    c: Arc<Count>,
    dev: Dev,
}
impl Bench {
    fn new() -> Bench {
        let c = Arc::new(Count::default());
        c.limit.store(u64::MAX, Ordering::Relaxed);
        Bench { dev: interp::leak(interp::device(c.clone())), c }
    }
}
impl Drop for Bench {
    fn drop(&mut self) {
        unsafe { interp::unleak(self.dev) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Leaf(usize),
    Add(usize, usize),
    Sub(usize, usize),
    MulK(usize, f32),
    /// by a leaf of signs
    Sign(usize, usize),
    Neg(usize),
    AddK(usize, f32),
    /// the halves exchanged: two nodes
    Swap(usize),
    /// a permutation matrix (a leaf) times a column
    Perm(usize, usize),
    Concat(usize, usize, usize),
}
struct Tape {
    m: usize,
    leaves: Vec<Vec<f32>>,
    ops: Vec<O>,
    val: Vec<Vec<f64>>,
    big: f64,
}
const SIGN: usize = 3;
const PERM: usize = 4;
impl Tape {
    fn new(r: &mut Rng, m: usize) -> Tape {
        let mut leaves: Vec<Vec<f32>> = (0..3).map(|_| (0..m).map(|_| r.range(-3, 3) as f32).collect()).collect();
        leaves.push((0..m).map(|_| if r.chance(0.5) { 1. } else { -1. }).collect());
        let mut p: Vec<usize> = (0..m).collect();
        r.shuffle(&mut p);
        let mut w = vec![0.; m * m];
        for (i, k) in p.iter().enumerate() {
            w[i + k * m] = 1.;
        }
        leaves.push(w);
        let mut t = Tape { m, leaves, ops: vec![], val: vec![], big: 0. };
        for k in 0..5 {
            t.push(O::Leaf(k));
        }
        t
    }
    fn eval(&self, o: O) -> Vec<f64> {
        let m = self.m;
        let v = |i: usize| &self.val[i];
        match o {
            O::Leaf(k) => self.leaves[k].iter().map(|x| *x as f64).collect(),
            O::Add(a, b) => v(a).iter().zip(v(b)).map(|(x, y)| x + y).collect(),
            O::Sub(a, b) => v(a).iter().zip(v(b)).map(|(x, y)| x - y).collect(),
            O::MulK(a, k) => v(a).iter().map(|x| x * k as f64).collect(),
            O::AddK(a, k) => v(a).iter().map(|x| x + k as f64).collect(),
            O::Neg(a) => v(a).iter().map(|x| -x).collect(),
            O::Sign(a, b) => v(a).iter().zip(v(b)).map(|(x, y)| x * y).collect(),
            O::Swap(a) => (0..m).map(|i| v(a)[(i + m / 2) % m]).collect(),
            O::Perm(a, w) => (0..m).map(|i| (0..m).map(|k| v(w)[i + k * m] * v(a)[k]).sum()).collect(),
            O::Concat(a, b, c) => (0..m).map(|i| v(if i * 4 < m { a } else if i * 4 < 3 * m { b } else { c })[i]).collect(),
        }
    }
    fn push(&mut self, o: O) -> usize {
        let y = self.eval(o);
        self.big = y.iter().fold(self.big, |a, b| a.max(b.abs()));
        self.val.push(y);
        self.ops.push(o);
        self.ops.len() - 1
    }
    fn last(&self) -> usize {
        self.ops.len() - 1
    }
    fn args(o: O) -> Vec<usize> {
        match o {
            O::Leaf(_) => vec![],
            O::Add(a, b) | O::Sub(a, b) | O::Sign(a, b) | O::Perm(a, b) => vec![a, b],
            O::MulK(a, _) | O::AddK(a, _) | O::Neg(a) | O::Swap(a) => vec![a],
            O::Concat(a, b, c) => vec![a, b, c],
        }
    }
    /// Gradients of the leaves, and the largest sum of absolute contributions anywhere.
    fn gradient(&self, root: usize) -> (Vec<Vec<f64>>, f64) {
        let n = self.ops.len();
        let m = self.m;
        let mut g: Vec<Vec<f64>> = vec![vec![]; n];
        let mut s: Vec<Vec<f64>> = vec![vec![]; n];
        g[root] = vec![1.; self.val[root].len()];
        s[root] = g[root].clone();
        let mut big: f64 = 0.;
        for i in (0..=root).rev() {
            if g[i].is_empty() {
                continue;
            }
            let o = self.ops[i];
            if let O::Leaf(_) = o {
                continue;
            }
            let (gi, si) = (std::mem::take(&mut g[i]), std::mem::take(&mut s[i]));
            big = si.iter().fold(big, |a, b| a.max(*b));
            for a in Tape::args(o) {
                if g[a].is_empty() {
                    g[a] = vec![0.; self.val[a].len()];
                    s[a] = g[a].clone();
                }
            }
            let mut to = |a: usize, k: usize, w: f64, from: usize| {
                g[a][k] += w * gi[from];
                s[a][k] += (w * gi[from]).abs();
            };
            for e in 0..m {
                match o {
                    O::Leaf(_) => {}
                    O::Add(a, b) => {
                        to(a, e, 1., e);
                        to(b, e, 1., e);
                    }
                    O::Sub(a, b) => {
                        to(a, e, 1., e);
                        to(b, e, -1., e);
                    }
                    O::MulK(a, k) => to(a, e, k as f64, e),
                    O::AddK(a, _) => to(a, e, 1., e),
                    O::Neg(a) => to(a, e, -1., e),
                    O::Sign(a, b) => {
                        to(a, e, self.val[b][e], e);
                        to(b, e, self.val[a][e], e);
                    }
                    O::Swap(a) => to(a, (e + m / 2) % m, 1., e),
                    O::Perm(a, w) => {
                        for k in 0..m {
                            to(a, k, self.val[w][e + k * m], e);
                            to(w, e + k * m, self.val[a][k], e);
                        }
                    }
                    O::Concat(a, b, c) => to(if e * 4 < m { a } else if e * 4 < 3 * m { b } else { c }, e, 1., e),
                }
            }
        }
        let mut out = vec![];
        for k in 0..5 {
            // the leaves are the first operations
            big = s[k].iter().fold(big, |a, b| a.max(*b));
            out.push(if g[k].is_empty() { vec![0.; self.val[k].len()] } else { g[k].clone() });
        }
        (out, big)
    }
    fn depth(&self, root: usize) -> usize {
        let mut d = vec![0; root + 1];
        for i in 0..=root {
            d[i] = 1 + Tape::args(self.ops[i]).iter().map(|a| d[*a]).max().unwrap_or(0);
        }
        d[root]
    }
    fn shape(&self, k: usize) -> Shape {
        let m = self.m as u32;
        if k == PERM { Shape::new(&[m, m], 1) } else { Shape::new(&[m], 1) }
    }
}

/// Random graphs whose values are small integers or halves.
fn generate(r: &mut Rng, n: usize, pattern: u64) -> Tape {
    let m = 4 * r.range(1, 2) as usize;
    let mut t = Tape::new(r, m);
    let x = r.us(3);
    match pattern {
        0 => {
            // a long recurrence
            let heavy = r.chance(0.3);
            let mut c = x;
            while t.ops.len() < n {
                let o = match r.below(if heavy { 12 } else { 8 }) {
                    0 | 1 => O::Add(c, r.us(3)),
                    2 | 3 => O::Sub(c, r.us(3)),
                    4 => O::AddK(c, r.range(-2, 2) as f32),
                    5 => O::Neg(c),
                    6 => O::MulK(c, *r.pick(&[1., -1.])),
                    7 => O::Sub(r.us(3), c),
                    8 | 9 => O::Swap(c),
                    10 => O::Concat(c, c, c),
                    _ => {
                        if r.chance(0.3) {
                            O::Perm(c, PERM)
                        } else {
                            O::Sign(c, SIGN)
                        }
                    }
                };
                if t.eval(o).iter().any(|v| v.abs() > 4000.) {
                    // back towards zero
                    c = t.push(O::Neg(c));
                    let k = r.us(3);
                    c = t.push(O::Concat(k, c, k));
                    c = t.push(O::Swap(c));
                    c = t.push(O::Concat(k, k, c));
                    continue;
                }
                c = t.push(o);
            }
        }
        1 => {
            // 2^n paths, the same value
            let mut c = t.push(O::Add(x, (x + 1) % 3));
            while t.ops.len() < n {
                let d = if r.chance(0.5) { c } else { t.push(O::Neg(c)) };
                let h = if d == c { t.push(O::Add(c, d)) } else { t.push(O::Sub(c, d)) };
                c = t.push(O::MulK(h, 0.5));
            }
        }
        2 => {
            // as many paths as Fibonacci's numbers
            let (mut a, mut b) = (x, (x + 1) % 3);
            while t.ops.len() < n {
                let c = t.push(O::Sub(b, a));
                a = b;
                b = c;
            }
        }
        3 => {
            // many users of a few operations, gathered in a chain or a tree
            let hub = t.push(O::Sub(x, (x + 1) % 3));
            let hub2 = t.push(O::Neg(hub));
            let k = n / 3;
            let mut ends: Vec<usize> = (0..k)
                .map(|i| {
                    let h = if r.chance(0.8) { hub } else { hub2 };
                    t.push(if i % 2 == 0 { O::AddK(h, 1.) } else { O::MulK(h, -1.) })
                })
                .collect();
            if r.chance(0.5) {
                let mut c = ends[0];
                for (i, e) in ends.into_iter().enumerate().skip(1) {
                    c = t.push(if (i / 2) % 2 == 0 { O::Add(c, e) } else { O::Sub(c, e) });
                }
            } else {
                while ends.len() > 1 {
                    ends = ends.chunks(2).map(|c| if c.len() == 2 { t.push(O::Add(c[0], c[1])) } else { c[0] }).collect();
                }
            }
        }
        4 => {
            // layers of a lattice: every node uses two of the layer before
            let w = r.range(2, 6) as usize;
            let mut layer: Vec<usize> = (0..w).map(|i| i % 3).collect();
            while t.ops.len() < n {
                let next: Vec<usize> = (0..w)
                    .map(|i| {
                        // Concat passes every element on once: no growth of values
                        let (a, b, c) = (layer[i], layer[(i + 1) % w], layer[r.us(w)]);
                        match r.below(4) {
                            0 => O::Swap(a),
                            1 => O::Concat(a, b, a),
                            _ => O::Concat(a, b, c),
                        }
                    })
                    .map(|o| t.push(o))
                    .collect();
                layer = next;
            }
            for i in 1..w {
                let a = t.last();
                t.push(O::Sub(a, layer[i - 1]));
            }
        }
        _ => {
            // long skips: an early operation used at the very end, blocks with shared inputs
            let mut c = x;
            let mut old = vec![c];
            while t.ops.len() < n {
                let s = *r.pick(&old);
                let d = t.push(O::Neg(c));
                let e = t.push(O::Add(c, d));
                let f = t.push(O::Sub(s, e));
                c = t.push(O::Sub(f, d));
                c = t.push(O::Sub(c, f));
                c = t.push(O::Concat(c, s, c));
                if r.chance(0.1) {
                    old.push(c);
                }
                if t.val[c].iter().any(|v| v.abs() > 4000.) {
                    c = t.push(O::Concat(x, x, c));
                    c = t.push(O::Swap(c));
                    c = t.push(O::Concat(x, x, c));
                }
            }
        }
    }
    t
}

struct Nodes<'a>(Vec<Option<Node<'a, 'static>>>);

fn build<'a>(t: &Tape, leaf: &mut dyn FnMut(usize) -> Node<'a, 'static>, upto: usize, v: &mut Vec<Option<Node<'a, 'static>>>) {
    let m = t.m as u32;
    for i in v.len()..=upto {
        let g = |k: usize| v[k].as_ref().unwrap();
        let y = match t.ops[i] {
            O::Leaf(k) => leaf(k),
            O::Add(a, b) => g(a) + g(b),
            O::Sub(a, b) => g(a) - g(b),
            O::MulK(a, k) => g(a) * k,
            O::AddK(a, k) => g(a) + k,
            O::Neg(a) => -g(a),
            O::Sign(a, b) => g(a) * g(b),
            O::Swap(a) => {
                let p = g(a).split(0, 2);
                Node::concat(&[&p[1], &p[0]], 0)
            }
            O::Perm(a, w) => g(w).matmul(g(a)),
            O::Concat(a, b, c) => {
                let q = m / 4;
                Node::concat(&[&g(a).slice(0, 0, q), &g(b).slice(0, q, 3 * q), &g(c).slice(0, 3 * q, m)], 0)
            }
        };
        v.push(Some(y));
    }
}
fn eager_value(t: &Tape, dev: Dev, root: usize) -> Vec<f32> {
    let m = t.m as u32;
    let mut v: Vec<Tensor<'static>> = vec![];
    for i in 0..=root {
        let y: Tensor<'static> = {
            let g = |k: usize| &v[k];
            match t.ops[i] {
                O::Leaf(k) => dev.new_tensor_by_slice(t.shape(k), &t.leaves[k]),
                O::Add(a, b) => g(a) + g(b),
                O::Sub(a, b) => g(a) - g(b),
                O::MulK(a, k) => g(a) * k,
                O::AddK(a, k) => g(a) + k,
                O::Neg(a) => -g(a),
                O::Sign(a, b) => g(a) * g(b),
                O::Swap(a) => {
                    let p = g(a).split(0, 2);
                    Tensor::concat(&[&p[1], &p[0]], 0)
                }
                O::Perm(a, w) => g(w).matmul(g(a)),
                O::Concat(a, b, c) => {
                    let q = m / 4;
                    Tensor::concat(&[&g(a).slice(0, 0, q), &g(b).slice(0, q, 3 * q), &g(c).slice(0, 3 * q, m)], 0)
                }
            }
        };
        v.push(unsafe { std::mem::transmute::<Tensor<'_>, Tensor<'static>>(y) });
    }
    v[root].to_vec()
}

fn exact(what: &str, got: &[f32], want: &[f64], t: &Tape, pattern: u64) -> Result<(), String> {
    ensure!(
        got.len() == want.len() && got.iter().zip(want).all(|(a, b)| *a as f64 == *b),
        "{} is {:?} instead of {:?} in a graph of {} operations, pattern {}", what, got, want, t.ops.len(), pattern
    );
    Ok(())
}

/// One graph in a thread with a small stack.
fn deep(b: &Bench, r: &mut Rng, rep: &mut Rep, n: usize) -> Result<(), String> {
    let pattern = r.below(6);
    let t = generate(r, n, pattern);
    if t.big > 1e6 {
        rep.count("not_exact");
        return Ok(());
    }
    let mut rr = r.fork();
    let mut quiet = Rep::default();
    let (t2, q) = (&t, &mut quiet);
    let res = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn_scoped(sc, move || match catch(|| inside(b, t2, &mut rr, q, pattern)) {
                Ok(x) => x,
                Err(m) => Err(format!("panicked: {}; {} operations, pattern {}", m, t2.ops.len(), pattern)),
            })
            .unwrap()
            .join()
            .unwrap()
    });
    for (k, v) in &quiet.counters {
        match k.strip_prefix("max_") {
            Some(k) => rep.max(k, *v),
            None => rep.add(k, *v),
        }
    }
    rep.count(&format!("pattern_{}", pattern));
    rep.add("operations", t.ops.len() as u64);
    rep.max("operations", t.ops.len() as u64);
    rep.max("depth", t.depth(t.last()) as u64);
    rep.distinct(&(pattern, t.m, t.ops.len(), hash_of(&t.ops.iter().rev().take(30).map(|o| format!("{:?}", o)).collect::<Vec<_>>())));
    rep.sample(|| format!("pattern {}: {} operations, depth {}, last {:?}", pattern, t.ops.len(), t.depth(t.last()), t.ops.last()));
    res
}

fn inside(b: &Bench, t: &Tape, r: &mut Rng, rep: &mut Rep, pattern: u64) -> Result<(), String> {
    let dev = b.dev;
    let root = t.last();
    let n = t.ops.len() as u64;
    let param: Vec<bool> = (0..5).map(|k| k < 3 || r.chance(0.5)).collect();
    let mut ps: Vec<Parameter<'static>> = (0..5)
        .map(|k| {
            let z = vec![0.; t.leaves[k].len()];
            Parameter::new(dev.new_tensor_by_slice(t.shape(k), &t.leaves[k]), dev.new_tensor_by_slice(t.shape(k), &z))
        })
        .collect();
    let (want_g, big) = t.gradient(root);
    let order = r.below(5);
    {
        let mut slots: Vec<Option<&mut Parameter<'static>>> = ps.iter_mut().map(Some).collect();
        let mut leaf = |k: usize| {
            if param[k] {
                Node::from(slots[k].take().unwrap())
            } else {
                Node::from(dev.new_tensor_by_slice(t.shape(k), &t.leaves[k]))
            }
        };
        let mut v = vec![];
        // sometimes evaluated on the way
        let mut stops: Vec<usize> = if r.chance(0.4) { (0..r.range(1, 6)).map(|_| r.us(root + 1)).collect() } else { vec![] };
        stops.push(root);
        stops.sort();
        b.c.fw.store(0, Ordering::Relaxed);
        b.c.bw.store(0, Ordering::Relaxed);
        // at most a few kernels for an operation; splits and concatenations count several
        b.c.limit.store(40 * (n + 50), Ordering::Relaxed);
        for s in &stops {
            build(t, &mut leaf, *s, &mut v);
            if *s < root {
                let x = v[*s].as_ref().unwrap();
                if r.chance(0.7) {
                    exact(&format!("the value of operation {}", s), &x.to_vec(), &t.val[*s], t, pattern)?;
                } else {
                    x.forward();
                }
            }
        }
        if order == 4 {
            // only the result is kept
            for (i, x) in v.iter_mut().enumerate() {
                if i != root {
                    *x = None;
                }
            }
        }
        if r.chance(0.2) {
            // never evaluated
            rep.count("dropped_unevaluated");
        } else {
            let x = v[root].as_ref().unwrap();
            if r.chance(0.5) {
                exact("the value of the last operation", &x.to_vec(), &t.val[root], t, pattern)?;
            }
            x.backward();
            exact("the value of the last operation", &x.to_vec(), &t.val[root], t, pattern)?;
            if n >= 1000 { rep.max("kernel_calls_per_operation_x100", (b.c.fw.load(Ordering::Relaxed) + b.c.bw.load(Ordering::Relaxed)) * 100 / n) }
            if r.chance(0.5) {
                // again: no evaluation
                let fw = b.c.fw.load(Ordering::Relaxed);
                let y = x.to_vec();
                exact("the value read again", &y, &t.val[root], t, pattern)?;
                ensure!(b.c.fw.load(Ordering::Relaxed) == fw, "reading the result again ran {} kernels; {} operations, pattern {}", b.c.fw.load(Ordering::Relaxed) - fw, n, pattern);
            }
            rep.count("evaluated");
        }
        b.c.limit.store(u64::MAX, Ordering::Relaxed);
        // the handles go in any order
        match order {
            0 => {
                for x in v.iter_mut() {
                    *x = None;
                }
            }
            1 => {
                for x in v.iter_mut().rev() {
                    *x = None;
                }
            }
            2 => {
                let mut ids: Vec<usize> = (0..v.len()).collect();
                r.shuffle(&mut ids);
                for i in ids {
                    v[i] = None;
                }
            }
            3 => {
                // the middle last
                let k = v.len() / 2;
                for i in (0..v.len()).filter(|i| *i != k) {
                    v[i] = None;
                }
            }
            _ => {}
        }
        drop(Nodes(v));
        rep.count(&format!("drop_order_{}", order));
    }
    if rep.counters.get("evaluated").is_some() {
        if big < 4e6 {
            for k in 0..5 {
                if param[k] {
                    exact(&format!("the gradient of leaf {}", k), &ps[k].gradient.to_vec(), &want_g[k], t, pattern)?;
                }
            }
            rep.count("gradients_compared");
        } else {
            rep.count("gradients_not_exact");
        }
    }
    for k in 0..5 {
        ensure!(ps[k].value.to_vec() == t.leaves[k], "leaf {} changed; pattern {}", k, pattern);
    }
    if t.ops.len() < 20_000 || r.chance(0.2) {
        exact("the value calculated step by step", &eager_value(t, dev, root), &t.val[root], t, pattern)?;
        rep.count("eager_compared");
    }
    Ok(())
}

/// A recurrent network over a long sequence against back-propagation through time.
fn rnn(b: &Bench, r: &mut Rng, rep: &mut Rep, steps: usize) -> Result<(), String> {
    let dev = b.dev;
    let m = r.range(1, 4) as usize;
    let mu = m as u32;
    let w: Vec<f32> = (0..m * m).map(|_| (r.uni(-0.8, 0.8) / m as f64) as f32).collect();
    let bias: Vec<f32> = (0..m).map(|_| r.uni(-0.5, 0.5) as f32).collect();
    let xs: Vec<Vec<f32>> = (0..8).map(|_| (0..m).map(|_| r.uni(-1., 1.) as f32).collect()).collect();
    let pick: Vec<usize> = (0..steps).map(|_| r.us(8)).collect();
    let every = r.chance(0.5);
    let sigmoid = r.chance(0.5);
    // reference
    let act = |v: f64| if sigmoid { 1. / (1. + (-v).exp()) } else { v.tanh() };
    let dact = |y: f64| if sigmoid { y * (1. - y) } else { 1. - y * y };
    let mut hs = vec![vec![0f64; m]];
    let mut loss = 0.;
    for t in 0..steps {
        let h: Vec<f64> = (0..m).map(|i| act((0..m).map(|k| w[i + k * m] as f64 * hs[t][k]).sum::<f64>() + bias[i] as f64 + xs[pick[t]][i] as f64)).collect();
        if every && t % 100 == 0 {
            loss += h.iter().sum::<f64>();
        }
        hs.push(h);
    }
    loss += hs[steps].iter().sum::<f64>();
    let mut gh = vec![1f64; m];
    let (mut gw, mut gb) = (vec![0f64; m * m], vec![0f64; m]);
    for t in (0..steps).rev() {
        if every && t % 100 == 0 {
            gh.iter_mut().for_each(|g| *g += 1.);
        }
        let d: Vec<f64> = (0..m).map(|i| gh[i] * dact(hs[t + 1][i])).collect();
        let mut nh = vec![0f64; m];
        for i in 0..m {
            gb[i] += d[i];
            for k in 0..m {
                gw[i + k * m] += d[i] * hs[t][k];
                nh[k] += w[i + k * m] as f64 * d[i];
            }
        }
        gh = nh;
    }
    let terms = 1. + if every { steps as f64 / 100. } else { 0. };
    let tol = 2e-5 * terms * m as f64 * 8.;
    let ins: Vec<Tensor<'static>> = xs.iter().map(|x| dev.new_tensor_by_slice(Shape::new(&[mu], 1), x)).collect();
    let zero = |n: usize| vec![0f32; n];
    let mut pw = Parameter::new(dev.new_tensor_by_slice(Shape::new(&[mu, mu], 1), &w), dev.new_tensor_by_slice(Shape::new(&[mu, mu], 1), &zero(m * m)));
    let mut pb = Parameter::new(dev.new_tensor_by_slice(Shape::new(&[mu], 1), &bias), dev.new_tensor_by_slice(Shape::new(&[mu], 1), &zero(m)));
    let res = std::thread::scope(|sc| {
        let (pw, pb, ins, pick) = (&mut pw, &mut pb, &ins, &pick);
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn_scoped(sc, move || {
                catch(|| {
                    let nw = Node::from(pw);
                    let nb = Node::from(pb);
                    let nx: Vec<Node> = ins.iter().map(Node::from).collect();
                    let mut h = Node::from(dev.new_tensor_by_constant(Shape::new(&[mu], 1), 0.));
                    let mut total: Option<Node> = None;
                    for t in 0..steps {
                        let a = nw.matmul(&h) + &nb + &nx[pick[t]];
                        h = if sigmoid { a.sigmoid() } else { a.tanh() };
                        if every && t % 100 == 0 {
                            let s = h.sum(0);
                            total = Some(match total {
                                Some(x) => x + s,
                                None => s,
                            });
                        }
                    }
                    let s = h.sum(0);
                    let l = match total {
                        Some(x) => x + s,
                        None => s,
                    };
                    l.backward();
                    let hv = h.to_vec();
                    (l.to_float(), hv)
                })
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let (l, h) = res.map_err(|m| format!("a recurrence of {} steps panicked: {}", steps, m))?;
    ensure!((l as f64 - loss).abs() <= tol, "the loss after {} steps is {} instead of {}", steps, l, loss);
    for i in 0..m {
        ensure!((h[i] as f64 - hs[steps][i]).abs() <= 1e-5, "the last state after {} steps is {:?} instead of {:?}", steps, h, hs[steps]);
    }
    for (what, g, want) in [("weights", pw.gradient.to_vec(), &gw), ("bias", pb.gradient.to_vec(), &gb)] {
        for i in 0..g.len() {
            ensure!((g[i] as f64 - want[i]).abs() <= tol, "the gradient of the {} after {} steps is {:?} instead of {:?}", what, steps, g, want);
        }
    }
    // step by step
    let (tw, tb) = (&pw.value, &pb.value);
    let mut h2 = dev.new_tensor_by_constant(Shape::new(&[mu], 1), 0.);
    for t in 0..steps {
        let a = tw.matmul(&h2) + tb + &ins[pick[t]];
        let y = if sigmoid { a.sigmoid() } else { a.tanh() };
        h2 = unsafe { std::mem::transmute::<Tensor<'_>, Tensor<'static>>(y) };
    }
    let e = h2.to_vec();
    ensure!(e.iter().zip(&h).all(|(a, b)| (a - b).abs() <= 1e-6), "the last state after {} steps is {:?}, step by step {:?}", steps, h, e);
    rep.add("recurrent_steps", steps as u64);
    rep.max("recurrent_steps", steps as u64);
    rep.distinct(&(m, steps, every, sigmoid, w[0].to_bits()));
    rep.sample(|| format!("{} steps of a recurrent network of size {}", steps, m));
    Ok(())
}

fn cpu() -> f64 {
    let mut t = libc_timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
#[repr(C)]
struct libc_timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(c: i32, t: *mut libc_timespec) -> i32;
}

/// Time for a graph of n operations and for one of 40 n.
fn growth(b: &Bench, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let dev = b.dev;
    let kind = r.below(6);
    let n = 8_000usize;
    let order = r.below(2);
    let run = |n: usize| -> (f64, f64, f64, f64) {
        let s = Shape::new(&[2], 1);
        let mut p = Parameter::new(dev.new_tensor_by_slice(s, &[1., 2.]), dev.new_tensor_by_slice(s, &[0., 0.]));
        let c0 = cpu();
        let mut v = vec![Node::from(&mut p)];
        for i in 0..n {
            let l = v.last().unwrap();
            let y = match kind {
                0 => l + 1.,
                1 => (l + l) * 0.5,
                2 => {
                    // everything uses the first
                    l - &v[0]
                }
                3 => &v[i / 2] + l,
                // one operation with many operands
                _ if i + 1 < n => {
                    let x = if kind == 4 { &v[0] } else { l };
                    x + 1.
                }
                _ => Node::concat(&v[1..].iter().collect::<Vec<_>>(), 1),
            };
            v.push(y);
        }
        let c1 = cpu();
        v[n].forward();
        let c2 = cpu();
        v[n].backward();
        let c3 = cpu();
        if order == 0 {
            let x = v.pop();
            drop(v);
            drop(x);
        } else {
            drop(v);
        }
        let c4 = cpu();
        (c1 - c0, c2 - c1, c3 - c2, c4 - c3)
    };
    run(n);
    let mut bad = vec![];
    // several tries: the machine may be busy
    for _ in 0..4 {
        let mut a = [f64::MAX; 4];
        for _ in 0..3 {
            let x = run(n);
            for (a, x) in a.iter_mut().zip([x.0, x.1, x.2, x.3]) {
                *a = a.min(x);
            }
        }
        let x = run(40 * n);
        let x = [x.0, x.1, x.2, x.3];
        bad = (0..4).filter(|&k| x[k] > 40. * 16. * a[k] + 0.05).map(|k| format!("{} took {:.4} s for {} and {:.4} s for {} operations", ["building", "evaluating", "backward", "dropping"][k], a[k], n, x[k], 40 * n)).collect();
        for k in 0..4 {
            rep.max(["growth_build_x10", "growth_forward_x10", "growth_backward_x10", "growth_drop_x10"][k], (x[k] / a[k].max(1e-5) * 10.) as u64);
        }
        if bad.is_empty() {
            break;
        }
        rep.count("growth_repeated");
    }
    ensure!(bad.is_empty(), "{} (kind {})", bad.join("; "), kind);
    rep.distinct(&(kind, order, r.next()));
    rep.count("growth_measured");
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("growth", cfg.q(16, 200), 10., Bench::new, |b, r, rep| growth(b, r, rep));
    cfg.stage("many", cfg.q(1600, 40_000), 10., Bench::new, |b, r, rep| {
        let n = 10f64.powf(r.uni(0.8, 3.7)) as usize;
        deep(b, r, rep, n)
    });
    cfg.stage("deep", cfg.q(60, 1500), 20., Bench::new, |b, r, rep| {
        let n = r.range(20_000, 200_000) as usize;
        deep(b, r, rep, n)
    });
    if cfg.thorough {
        cfg.stage("deeper", 24, 60., Bench::new, |b, r, rep| {
            let n = r.range(500_000, 1_000_000) as usize;
            deep(b, r, rep, n)
        });
    }
    cfg.stage("recurrent", cfg.q(40, 600), 12., Bench::new, |b, r, rep| {
        let n = r.range(1_000, 60_000) as usize;
        rnn(b, r, rep, n)
    });
    cfg.finish(
        "long recurrences, exponentially many paths, hubs with many users, trees, lattices, long skips and recurrent networks, built, evaluated (also on the way), differentiated and dropped in any order of the handles in threads with 256 KiB of stack: exact values and gradients, counted kernel calls, processor time of n against 40 n operations",
        &["values are chosen so that all intermediate results are exact; gradients whose partial sums exceed 4e6 are not compared"],
    )
}
