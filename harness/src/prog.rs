//! Random programs: leaves and operations on earlier results, with reference values, derivatives and
//! bounds tracked during generation.
use crate::gen;
use crate::ops::{self, Dev, Op, Op::*};
use crate::refm::*;
use crate::util::*;
use prima_undine::{Node, Tensor};
use std::fmt;

pub const L: usize = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// integers small enough for exact arithmetic in any order
    Int,
    Smooth,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LeafKind {
    Param,
    Input,
    Owned,
}
#[derive(Clone, Debug)]
pub struct Leaf {
    pub s: Sh,
    pub kind: LeafKind,
    pub data: Vec<f32>,
    /// first derivative direction of a parameter
    pub dir: usize,
    pub var: usize,
}
#[derive(Clone, Debug)]
pub enum Item {
    Leaf(usize),
    Step { op: Op, args: Vec<usize>, outs: Vec<usize>, style: u32 },
}
#[derive(Clone)]
pub struct Prog {
    pub class: Class,
    pub leaves: Vec<Leaf>,
    pub items: Vec<Item>,
    pub vars: Vec<Sh>,
    pub val: Vec<RT<AD<L>>>,
}
impl fmt::Debug for Prog {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for it in &self.items {
            match it {
                Item::Leaf(k) => {
                    let l = &self.leaves[*k];
                    write!(f, "v{}={:?}{:?}{:?}; ", l.var, l.kind, l.s, l.data)?
                }
                Item::Step { op, args, outs, .. } => write!(f, "v{:?}={:?}{:?}->{:?}; ", outs, op, args, self.vars[outs[0]])?,
            }
        }
        Ok(())
    }
}

enum Arg {
    Var(usize),
    New(Sh),
    /// rows along the dimension sum to one, constant
    Target(Sh, u32),
}

pub const INT_KINDS: &[&str] = &[
    "Add", "Add", "Sub", "Mul", "Mul", "AddK", "SubK", "MulK", "KAdd", "KSub", "KMul", "Neg", "Powi", "Abs", "Relu",
    "Prelu", "Sum", "Max", "Min", "Broadcast", "Matmul", "Matmul", "Transpose", "TriL", "TriU", "Slice", "Split",
    "Split", "Pick", "Concat", "Reshape", "Flatten", "BatchSum", "BatchSlice", "BatchSplit", "BatchPick",
    "BatchConcat", "SliceSum",
];

pub struct Opts {
    pub steps: usize,
    pub max: u64,
    pub contrib: bool,
    /// only operations that work on each sample on its own
    pub samplewise: bool,
    /// probability that a leaf is a parameter
    pub params: f64,
    /// bound of magnitudes for the integer class
    pub limit: f64,
    /// all new leaves have batch 1 or this batch
    pub batch: Option<u32>,
    pub skip: &'static [&'static str],
}
impl Opts {
    pub fn new(steps: usize) -> Opts {
        Opts { steps, max: 40, contrib: true, samplewise: false, params: 0.6, limit: 4e6, batch: None, skip: &[] }
    }
}

fn int_k(r: &mut Rng) -> f32 {
    *r.pick(&[-3., -2., -1., 2., 3., 1., 4.])
}

impl Prog {
    pub fn generate(r: &mut Rng, class: Class, o: &Opts) -> Prog {
        let mut p = Prog { class, leaves: vec![], items: vec![], vars: vec![], val: vec![] };
        let mut mag: Vec<RT<Mag<L>>> = vec![];
        let mut dirs = 0;
        let mut s = gen::shape(r, (o.max / 3).max(1));
        if let Some(b) = o.batch {
            s = gen::shrink(r, s.with_b(1), (o.max / 2 / b as u64).max(1));
            s.b = if r.chance(0.6) { b } else { 1 };
        } else if r.chance(0.5) {
            s.b = 1;
        }
        p.leaf(r, &mut mag, &mut dirs, s, None, o);
        let smooth: Vec<&str> = ops::KINDS
            .iter()
            .chain(if o.contrib { ops::CONTRIB_KINDS.iter() } else { [].iter() })
            .copied()
            .filter(|k| *k != "KPow")
            .collect();
        let kinds: &[&str] = if class == Class::Int { INT_KINDS } else { &smooth };
        let mut done = 0;
        let mut tries = 0;
        while done < o.steps && tries < o.steps * 8 + 20 {
            tries += 1;
            let kind = *r.pick(kinds);
            if o.skip.contains(&kind) || (!o.contrib && kind == "SliceSum") {
                continue;
            }
            if p.step(r, kind, &mut mag, &mut dirs, o) {
                done += 1;
            }
        }
        p
    }

    fn leaf(&mut self, r: &mut Rng, mag: &mut Vec<RT<Mag<L>>>, dirs: &mut usize, s: Sh, target: Option<u32>, o: &Opts) -> usize {
        let n = s.n();
        let mut data: Vec<f32> = (0..n)
            .map(|_| match self.class {
                Class::Int => {
                    let k = r.range(-3, 3) as f32;
                    k
                }
                Class::Smooth => {
                    let x = r.uni(0.3, 1.7) as f32;
                    if r.chance(0.4) {
                        -x
                    } else {
                        x
                    }
                }
            })
            .collect();
        if let Some(d) = target {
            let t = RT::<f64> { s, x: data.iter().map(|x| x.abs() as f64 + 0.05).collect() };
            let z = t.reduce(d, |l| l.iter().sum());
            data = RT::<f64>::build(s, |c, b| {
                let mut k = *c;
                k[d as usize] = 0;
                t.g(c, b) / z.g(&k, b)
            })
            .x
            .iter()
            .map(|&x| x as f32)
            .collect();
        }
        let param = s.b == 1 && *dirs + n <= L && target.is_none() && r.chance(o.params);
        let kind = if param {
            LeafKind::Param
        } else if r.chance(0.6) {
            LeafKind::Input
        } else {
            LeafKind::Owned
        };
        let dir = *dirs;
        if param {
            *dirs += n;
        }
        let var = self.vars.len();
        self.vars.push(s);
        self.items.push(Item::Leaf(self.leaves.len()));
        let l = Leaf { s, kind, data, dir, var };
        self.val.push(leaf_ad(&l));
        mag.push(leaf_mag(&l));
        self.leaves.push(l);
        var
    }

    fn truncate(&mut self, nv: usize, ni: usize, nl: usize, mag: &mut Vec<RT<Mag<L>>>) {
        self.vars.truncate(nv);
        self.val.truncate(nv);
        mag.truncate(nv);
        self.items.truncate(ni);
        self.leaves.truncate(nl);
    }

    fn step(&mut self, r: &mut Rng, kind: &str, mag: &mut Vec<RT<Mag<L>>>, dirs: &mut usize, o: &Opts) -> bool {
        let (op, args) = match self.choose(r, kind, o) {
            Some(x) => x,
            None => return false,
        };
        if o.samplewise && !op.samplewise() {
            return false;
        }
        let (nv, ni, nl, nd) = (self.vars.len(), self.items.len(), self.leaves.len(), *dirs);
        let ids: Vec<usize> = args
            .into_iter()
            .map(|a| match a {
                Arg::Var(i) => i,
                Arg::New(s) => self.leaf(r, mag, dirs, s, None, o),
                Arg::Target(s, d) => self.leaf(r, mag, dirs, s, Some(d), o),
            })
            .collect();
        let shapes: Vec<Sh> = ids.iter().map(|&i| self.vars[i]).collect();
        let want = match op.infer(&shapes) {
            Some(w) if w.iter().all(|s| s.size() <= o.max) => w,
            _ => {
                self.truncate(nv, ni, nl, mag);
                *dirs = nd;
                return false;
            }
        };
        take_kink();
        MAXMAG.with(|k| k.set(0.));
        let mut ok = true;
        let mut mvals = vec![];
        if self.class == Class::Int {
            let a: Vec<&RT<Mag<L>>> = ids.iter().map(|&i| &mag[i]).collect();
            mvals = op.eval(&a);
            ok = !take_kink() && MAXMAG.with(|k| k.get()) <= o.limit;
        }
        let mut vals = vec![];
        if ok {
            let a: Vec<&RT<AD<L>>> = ids.iter().map(|&i| &self.val[i]).collect();
            vals = op.eval(&a);
            let kinked = take_kink();
            if self.class == Class::Smooth {
                ok = !kinked
                    && vals.iter().all(|t| {
                        t.x.iter().all(|e| {
                            e.e.v.is_finite()
                                && e.e.v.abs() < 100.
                                && e.e.e <= 1e-4 * e.e.v.abs().max(0.1)
                                && e.a.iter().all(|&a| a < 3e3)
                        })
                    });
            }
        }
        if !ok {
            self.truncate(nv, ni, nl, mag);
            *dirs = nd;
            return false;
        }
        for (s, v) in want.iter().zip(&vals) {
            if *s != v.s {
                crate::harness_error!("shape of {:?} {:?}: {:?} {:?}", op, shapes, s, v.s);
            }
        }
        let outs: Vec<usize> = (0..want.len()).map(|k| self.vars.len() + k).collect();
        self.vars.extend(want);
        self.val.extend(vals);
        if self.class == Class::Int {
            mag.extend(mvals);
        } else {
            mag.extend(outs.iter().map(|&i| RT { s: self.vars[i], x: vec![] }));
        }
        let style = if r.chance(0.5) { 0 } else { r.below(4) as u32 };
        self.items.push(Item::Step { op, args: ids, outs, style });
        true
    }

    fn choose(&self, r: &mut Rng, kind: &str, o: &Opts) -> Option<(Op, Vec<Arg>)> {
        use Arg::*;
        let nv = self.vars.len();
        let xi = if r.chance(0.6) { nv - 1 - r.us(nv.min(3)) } else { r.us(nv) };
        let x = self.vars[xi];
        let int = self.class == Class::Int;
        let dim = |r: &mut Rng, s: &Sh| -> u32 {
            if s.depth() > 0 && r.chance(0.9) {
                r.us(s.depth()) as u32
            } else {
                r.us(MD) as u32
            }
        };
        let k = |r: &mut Rng| if int { int_k(r) } else { gen::small_k(r) };
        // a variable that satisfies f, most recent ones preferred
        let find = |r: &mut Rng, f: &dyn Fn(&Sh) -> bool| -> Option<usize> {
            let c: Vec<usize> = (0..nv).filter(|&i| f(&self.vars[i])).collect();
            if c.is_empty() {
                None
            } else if r.chance(0.5) {
                Some(c[c.len() - 1 - r.us(c.len().min(2))])
            } else {
                Some(*r.pick(&c))
            }
        };
        let newb = |r: &mut Rng, b: u32| -> u32 {
            match o.batch {
                Some(q) => {
                    if r.chance(0.4) {
                        q
                    } else {
                        1
                    }
                }
                None => {
                    if r.chance(0.5) {
                        b
                    } else if b == 1 && r.chance(0.3) {
                        r.range(1, 3) as u32
                    } else {
                        1
                    }
                }
            }
        };
        let one = |op: Op| Some((op, vec![Var(xi)]));
        let bin = |r: &mut Rng, op: Op| {
            let f = |s: &Sh| ops::bin_rule(&x, s).map_or(false, |y| y.size() <= o.max);
            let y = match find(r, &f) {
                Some(i) if r.chance(0.7) => Var(i),
                _ => {
                    let b = newb(r, x.b);
                    New(if r.chance(0.25) { Sh::scalar().with_b(b) } else { x.with_b(b) })
                }
            };
            Some((op, if r.chance(0.5) { vec![Var(xi), y] } else { vec![y, Var(xi)] }))
        };
        match kind {
            "Add" => bin(r, Add),
            "Sub" => bin(r, Sub),
            "Mul" => bin(r, Mul),
            "Div" => bin(r, Div),
            "Pow" => bin(r, Pow),
            "AddK" => one(AddK(k(r))),
            "SubK" => one(SubK(k(r))),
            "MulK" => one(MulK(k(r))),
            "DivK" => one(DivK(k(r))),
            "KAdd" => one(KAdd(k(r))),
            "KSub" => one(KSub(k(r))),
            "KMul" => one(KMul(k(r))),
            "KDiv" => one(KDiv(k(r))),
            "PowK" => one(PowK(*r.pick(&[2., 0.5, 1.5, -1., 3.]))),
            "Powi" => one(Powi(if int { *r.pick(&[1, 2, 2, 3]) } else { *r.pick(&[2, 3, -1, -2, 1]) })),
            "Neg" => one(Neg),
            "Sqrt" => one(Sqrt),
            "Abs" => one(Abs),
            "Sin" => one(Sin),
            "Cos" => one(Cos),
            "Tan" => one(Tan),
            "Exp" => one(Exp),
            "Ln" => one(Ln),
            "Tanh" => one(Tanh),
            "Sigmoid" => one(Sigmoid),
            "Softplus" => one(Softplus),
            "Relu" => one(Relu),
            "Lrelu" => one(Lrelu),
            "Prelu" => one(Prelu(if int { int_k(r) } else { 0.25 })),
            "Elu" => one(Elu(*r.pick(&[1., 0.5, 2.]))),
            "Sum" => one(Sum(dim(r, &x))),
            "Max" => one(Max(dim(r, &x))),
            "Min" => one(Min(dim(r, &x))),
            "Mean" => one(Mean(dim(r, &x))),
            "Lse" => one(Lse(dim(r, &x))),
            "LnSoftmax" => one(LnSoftmax(dim(r, &x))),
            "Softmax" => one(Softmax(dim(r, &x))),
            "Broadcast" => {
                let c: Vec<u32> = (0..MD as u32).filter(|&d| x.at(d) == 1).collect();
                if c.is_empty() {
                    return None;
                }
                let d = if r.chance(0.7) { c[0] } else { *r.pick(&c) };
                one(Broadcast(d, r.range(1, 4) as u32))
            }
            "Sce" => {
                let d = dim(r, &x);
                let b = newb(r, x.b);
                Some((Sce(d), vec![Var(xi), Target(x.with_b(b), d)]))
            }
            "Pick" | "SparseSce" => {
                let d = dim(r, &x);
                let n = if o.batch.is_some() {
                    if r.chance(0.5) { 1 } else { x.b }
                } else if x.b == 1 {
                    *r.pick(&[1, 1, 2, 3])
                } else if r.chance(0.6) {
                    x.b
                } else {
                    1
                };
                let ids: Vec<u32> = (0..n).map(|_| r.below(x.at(d) as u64) as u32).collect();
                one(if kind == "Pick" { Pick(ids, d) } else { SparseSce(ids, d) })
            }
            "Matmul" => {
                if !x.is_matrix() {
                    return None;
                }
                if r.chance(0.5) {
                    // x is on the left
                    let f = |s: &Sh| s.is_matrix() && s.d[0] == x.d[1] && s.compat(&x);
                    let y = match find(r, &f) {
                        Some(i) if r.chance(0.7) => Var(i),
                        _ => {
                            let b = newb(r, x.b);
                            New(Sh::new(&[x.d[1], r.range(1, 3) as u32], b))
                        }
                    };
                    Some((Matmul, vec![Var(xi), y]))
                } else {
                    let f = |s: &Sh| s.is_matrix() && s.d[1] == x.d[0] && s.compat(&x);
                    let y = match find(r, &f) {
                        Some(i) if r.chance(0.7) => Var(i),
                        _ => {
                            let b = newb(r, x.b);
                            New(Sh::new(&[r.range(1, 3) as u32, x.d[0]], b))
                        }
                    };
                    Some((Matmul, vec![y, Var(xi)]))
                }
            }
            "Transpose" => one(Transpose),
            "TriL" => one(TriL(r.range(0, 2) as u32)),
            "TriU" => one(TriU(r.range(0, 2) as u32)),
            "Slice" => {
                let d = dim(r, &x);
                let n = x.at(d);
                let l = r.below(n as u64) as u32;
                let u = r.range(l as i64 + 1, n as i64) as u32;
                one(Slice(d, l, u))
            }
            "Split" => {
                let d = dim(r, &x);
                let n = x.at(d);
                let c: Vec<u32> = (1..=n.min(if r.chance(0.2) { 24 } else { 4 })).filter(|k| n % k == 0).collect();
                one(Split(d, *c.last().unwrap()))
            }
            "Concat" => {
                let d = dim(r, &x);
                let n = gen::many(r, 4);
                let mut v = vec![Var(xi)];
                let mut b = x.b;
                for _ in 1..n {
                    let bb = b;
                    let f = |s: &Sh| s.with(d, 1).same_dims(&x.with(d, 1)) && (s.b == 1 || bb == 1 || s.b == bb);
                    match find(r, &f) {
                        Some(i) if r.chance(0.75) => {
                            b = b.max(self.vars[i].b);
                            v.push(Var(i))
                        }
                        _ => {
                            let nb = if r.chance(0.5) { 1 } else { b };
                            v.push(New(x.with(d, r.range(1, 3) as u32).with_b(nb)))
                        }
                    }
                }
                r.shuffle(&mut v);
                Some((Concat(d), v))
            }
            "Reshape" => one(Reshape(gen::same_size(r, x.size()))),
            "Flatten" => one(Flatten),
            "BatchSum" => one(BatchSum),
            "BatchMean" => one(BatchMean),
            "BatchSlice" => {
                let l = r.below(x.b as u64) as u32;
                let u = r.range(l as i64 + 1, x.b as i64) as u32;
                one(BatchSlice(l, u))
            }
            "BatchSplit" => {
                let c: Vec<u32> = (1..=x.b.min(if r.chance(0.2) { 24 } else { 4 })).filter(|k| x.b % k == 0).collect();
                one(BatchSplit(*c.last().unwrap()))
            }
            "BatchPick" => {
                let n = gen::many(r, 4);
                one(BatchPick((0..n).map(|_| r.below(x.b as u64) as u32).collect()))
            }
            "BatchConcat" => {
                let n = gen::many(r, 3);
                let mut v = vec![Var(xi)];
                for _ in 1..n {
                    match find(r, &|s: &Sh| s.same_dims(&x)) {
                        Some(i) if r.chance(0.8) => v.push(Var(i)),
                        _ => v.push(New(x.with_b(r.range(1, 2) as u32))),
                    }
                }
                r.shuffle(&mut v);
                Some((BatchConcat, v))
            }
            "SliceSum" => {
                let n = gen::many(r, 4);
                let mut v = vec![Var(xi)];
                let mut b = x.b;
                for _ in 1..n {
                    let bb = b;
                    match find(r, &|s: &Sh| s.same_dims(&x) && (s.b == 1 || bb == 1 || s.b == bb)) {
                        Some(i) => {
                            b = b.max(self.vars[i].b);
                            v.push(Var(i))
                        }
                        None => v.push(New(x.with_b(1))),
                    }
                }
                Some((SliceSum, v))
            }
            "BatchNorm" | "LayerNorm" => {
                let aux = |r: &mut Rng| New(if r.chance(0.4) { Sh::scalar() } else { x.with_b(1) });
                let (g, b) = (aux(r), aux(r));
                let e = *r.pick(&[0.125, 0.5]);
                let op = if kind == "BatchNorm" { BatchNorm(e, r.chance(0.8)) } else { LayerNorm(e) };
                Some((op, vec![Var(xi), g, b]))
            }
            "Dropout" => one(if r.chance(0.5) { Dropout(0.5, false) } else { Dropout(1., true) }),
            "DropoutDim" => one(DropoutDim(dim(r, &x), 0.5, false)),
            k => crate::harness_error!("kind {}", k),
        }
    }

    pub fn eval<N: Num, F: FnMut(usize) -> RT<N>>(&self, mut leaf: F) -> Vec<RT<N>> {
        let mut v: Vec<RT<N>> = vec![];
        for it in &self.items {
            match it {
                Item::Leaf(k) => v.push(leaf(*k)),
                Item::Step { op, args, .. } => {
                    let y = {
                        let a: Vec<&RT<N>> = args.iter().map(|&i| &v[i]).collect();
                        op.eval(&a)
                    };
                    v.extend(y)
                }
            }
        }
        v
    }

    /// Nodes for all variables.
    pub fn nodes<'a, F: FnMut(usize) -> Node<'a, 'static>>(&self, leaf: F) -> Vec<Node<'a, 'static>> {
        self.nodes_then(leaf, |_| ())
    }
    /// The same; `then` sees the nodes made so far after every step.
    pub fn nodes_then<'a, F: FnMut(usize) -> Node<'a, 'static>, G: FnMut(&[Node<'a, 'static>])>(&self, mut leaf: F, mut then: G) -> Vec<Node<'a, 'static>> {
        let mut v: Vec<Node<'a, 'static>> = vec![];
        for it in &self.items {
            if !v.is_empty() {
                then(&v);
            }
            match it {
                Item::Leaf(k) => v.push(leaf(*k)),
                Item::Step { op, args, style, .. } => {
                    let y = {
                        let a: Vec<&Node> = args.iter().map(|&i| &v[i]).collect();
                        ops::lazy(op, &a, *style)
                    };
                    v.extend(y)
                }
            }
        }
        v
    }

    pub fn tensors<F: FnMut(usize) -> Tensor<'static>>(&self, mut leaf: F) -> Vec<Tensor<'static>> {
        let mut v: Vec<Tensor<'static>> = vec![];
        for it in &self.items {
            match it {
                Item::Leaf(k) => v.push(leaf(*k)),
                Item::Step { op, args, style, .. } => {
                    let y = {
                        let a: Vec<&Tensor> = args.iter().map(|&i| &v[i]).collect();
                        eager_static(op, &a, *style)
                    };
                    v.extend(y)
                }
            }
        }
        v
    }

    pub fn leaf_tensor(&self, dev: Dev, k: usize) -> Tensor<'static> {
        ops::tensor(dev, self.leaves[k].s, &self.leaves[k].data)
    }

    pub fn leaf_of_var(&self, v: usize) -> Option<usize> {
        self.leaves.iter().position(|l| l.var == v)
    }

    /// The derivative of the sum of the elements of `var` for the parameter leaf, and path sums.
    pub fn gradient(&self, leaf: usize, var: usize) -> (Vec<f64>, Vec<f64>) {
        gradient_of(&self.leaves[leaf], &self.val[var])
    }

    /// Variables a variable depends on (itself included).
    pub fn deps(&self, var: usize) -> Vec<bool> {
        let mut need = vec![false; self.vars.len()];
        need[var] = true;
        for it in self.items.iter().rev() {
            if let Item::Step { args, outs, .. } = it {
                if outs.iter().any(|&o| need[o]) {
                    for &a in args {
                        need[a] = true;
                    }
                }
            }
        }
        need
    }

    /// Something to tell programs apart.
    pub fn signature(&self) -> u64 {
        let mut s = String::new();
        for it in &self.items {
            match it {
                Item::Leaf(k) => s += &format!("{:?}{:?};", self.leaves[*k].kind, self.leaves[*k].s),
                Item::Step { op, args, .. } => s += &format!("{:?}{:?};", op, args),
            }
        }
        hash_of(&s)
    }
    pub fn kinds(&self) -> Vec<String> {
        self.items
            .iter()
            .filter_map(|i| match i {
                Item::Step { op, .. } => Some(op.kind()),
                _ => None,
            })
            .collect()
    }
}

pub fn gradient_of(l: &Leaf, root: &RT<AD<L>>) -> (Vec<f64>, Vec<f64>) {
    let n = l.s.n();
    let mut g = vec![0.; n];
    let mut a = vec![0.; n];
    for e in &root.x {
        for i in 0..n {
            g[i] += e.d[l.dir + i];
            a[i] += e.a[l.dir + i];
        }
    }
    (g, a)
}

pub fn leaf_ad(l: &Leaf) -> RT<AD<L>> {
    let mut t = RT::<AD<L>>::from_f32(l.s, &l.data);
    if l.kind == LeafKind::Param {
        for (i, e) in t.x.iter_mut().enumerate() {
            e.d[l.dir + i] = 1.;
            e.a[l.dir + i] = 1.;
        }
    }
    t
}
pub fn leaf_mag(l: &Leaf) -> RT<Mag<L>> {
    let mut t = RT::<Mag<L>>::from_f32(l.s, &l.data);
    if l.kind == LeafKind::Param {
        for (i, e) in t.x.iter_mut().enumerate() {
            e.d[l.dir + i] = 1.;
        }
    }
    t
}

/// Results own their buffers and devices are never freed.
pub fn eager_static(op: &Op, a: &[&Tensor<'static>], style: u32) -> Vec<Tensor<'static>> {
    let y = ops::eager(op, a, style);
    unsafe { std::mem::transmute(y) }
}

impl Prog {
    /// The program for one sample of the batch alone (programs over sample-wise operations).
    pub fn sample(&self, b: u32) -> Prog {
        let mut p = self.clone();
        for l in p.leaves.iter_mut() {
            let t = RT::<f64>::from_f32(l.s, &l.data).sample(b);
            l.s = t.s;
            l.data = t.x.iter().map(|&x| x as f32).collect();
        }
        for it in p.items.iter_mut() {
            if let Item::Step { op: Pick(ids, _) | SparseSce(ids, _), .. } = it {
                if ids.len() > 1 {
                    *ids = vec![ids[b as usize]];
                }
            }
        }
        for s in p.vars.iter_mut() {
            s.b = 1;
        }
        p
    }
}

/// A device of its own that is destroyed afterwards; everything on it must be gone by then.
pub struct Fresh(pub Dev);
impl Fresh {
    pub fn new() -> Fresh {
        Fresh(ops::naive())
    }
}
impl Drop for Fresh {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0 as *const _ as *mut prima_undine::Device<'static>)) }
    }
}
