//! The operations of the API: acceptance rules, reference evaluation, and their application to real
//! tensors and nodes in every operand style.
use crate::refm::*;
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};
use prima_undine::{Device, Node, Tensor};
use prima_undine_contrib::functions::ContribFunctions;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
    /// x op k
    AddK(f32),
    SubK(f32),
    MulK(f32),
    DivK(f32),
    PowK(f32),
    /// k op x
    KAdd(f32),
    KSub(f32),
    KMul(f32),
    KDiv(f32),
    /// k^x: tensors only (device function)
    KPow(f32),
    Powi(i32),
    Neg,
    Sqrt,
    Abs,
    Sin,
    Cos,
    Tan,
    Exp,
    Ln,
    Tanh,
    Sigmoid,
    Softplus,
    Relu,
    Lrelu,
    Prelu(f32),
    Elu(f32),
    Sum(u32),
    Max(u32),
    Min(u32),
    Broadcast(u32, u32),
    Lse(u32),
    LnSoftmax(u32),
    Softmax(u32),
    Sce(u32),
    SparseSce(Vec<u32>, u32),
    Matmul,
    Transpose,
    TriL(u32),
    TriU(u32),
    Slice(u32, u32, u32),
    Split(u32, u32),
    Pick(Vec<u32>, u32),
    Concat(u32),
    Reshape(Sh),
    Flatten,
    BatchSum,
    BatchSlice(u32, u32),
    BatchSplit(u32),
    BatchPick(Vec<u32>),
    BatchConcat,
    Mean(u32),
    BatchMean,
    SliceSum,
    BatchNorm(f32, bool),
    LayerNorm(f32),
    /// disabled, or rate >= 1
    Dropout(f32, bool),
    DropoutDim(u32, f32, bool),
}
use Op::*;

pub const KINDS: &[&str] = &[
    "Add", "Sub", "Mul", "Div", "Pow", "AddK", "SubK", "MulK", "DivK", "PowK", "KAdd", "KSub", "KMul",
    "KDiv", "KPow", "Powi", "Neg", "Sqrt", "Abs", "Sin", "Cos", "Tan", "Exp", "Ln", "Tanh", "Sigmoid",
    "Softplus", "Relu", "Lrelu", "Prelu", "Elu", "Sum", "Max", "Min", "Broadcast", "Lse", "LnSoftmax",
    "Softmax", "Sce", "SparseSce", "Matmul", "Transpose", "TriL", "TriU", "Slice", "Split", "Pick",
    "Concat", "Reshape", "Flatten", "BatchSum", "BatchSlice", "BatchSplit", "BatchPick", "BatchConcat",
];
pub const CONTRIB_KINDS: &[&str] =
    &["Mean", "BatchMean", "SliceSum", "BatchNorm", "LayerNorm", "Dropout", "DropoutDim"];

pub fn bin_rule(a: &Sh, b: &Sh) -> Option<Sh> {
    if !a.compat(b) {
        return None;
    }
    let bb = a.b.max(b.b);
    let r = if a.is_scalar() {
        b.with_b(bb)
    } else if b.is_scalar() || a.same_dims(b) {
        a.with_b(bb)
    } else {
        return None;
    };
    Some(r).filter(|s| s.fits())
}

impl Op {
    pub fn kind(&self) -> String {
        let s = format!("{:?}", self);
        s.split(|c| c == '(').next().unwrap().to_string()
    }
    /// Exists for nodes.
    pub fn lazy(&self) -> bool {
        !matches!(self, KPow(_))
    }
    /// Elements are copied, selected or set to zero, without arithmetic.
    pub fn structural(&self) -> bool {
        matches!(
            self,
            Max(_) | Min(_) | Broadcast(..) | Transpose | TriL(_) | TriU(_) | Slice(..) | Split(..)
                | Pick(..) | Concat(_) | Reshape(_) | Flatten | BatchSlice(..) | BatchSplit(_)
                | BatchPick(_) | BatchConcat
        )
    }
    pub fn arity_ok(&self, n: usize) -> bool {
        match self {
            Add | Sub | Mul | Div | Pow | Matmul | Sce(_) => n == 2,
            BatchNorm(..) | LayerNorm(_) => n == 3,
            Concat(_) | BatchConcat | SliceSum => n >= 1,
            _ => n == 1,
        }
    }
    /// The function is applied to every sample on its own.
    pub fn samplewise(&self) -> bool {
        !matches!(
            self,
            BatchSum | BatchSlice(..) | BatchSplit(_) | BatchPick(_) | BatchConcat | BatchMean | BatchNorm(..) | Reshape(_)
                | DropoutDim(..) | Dropout(..)
        )
    }

    /// The shapes of the results, or None if the operands must be refused.
    pub fn infer(&self, a: &[Sh]) -> Option<Vec<Sh>> {
        let x = *a.get(0)?;
        let one = |s: Sh| if s.fits() { Some(vec![s]) } else { None };
        let dim_ok = |d: u32| (d as usize) < MD;
        match self {
            Add | Sub | Mul | Div | Pow => one(bin_rule(&x, &a[1])?),
            AddK(_) | SubK(_) | MulK(_) | DivK(_) | PowK(_) | KAdd(_) | KSub(_) | KMul(_) | KDiv(_)
            | KPow(_) | Powi(_) | Neg | Sqrt | Abs | Sin | Cos | Tan | Exp | Ln | Tanh | Sigmoid
            | Softplus | Relu | Lrelu | Prelu(_) | Elu(_) => one(x),
            Sum(d) | Max(d) | Min(d) | Lse(d) | Mean(d) => {
                if !dim_ok(*d) {
                    return None;
                }
                one(x.with(*d, 1))
            }
            LnSoftmax(d) | Softmax(d) => {
                if !dim_ok(*d) {
                    return None;
                }
                one(x)
            }
            Broadcast(d, n) => {
                if !dim_ok(*d) || x.at(*d) != 1 || *n == 0 {
                    return None;
                }
                one(x.with(*d, *n))
            }
            Sce(d) => {
                if !dim_ok(*d) || !x.same_dims(&a[1]) || !x.compat(&a[1]) {
                    return None;
                }
                one(x.with(*d, 1).with_b(x.b.max(a[1].b)))
            }
            SparseSce(ids, d) | Pick(ids, d) => {
                let n = ids.len() as u32;
                if !dim_ok(*d) || n == 0 || !(n == 1 || x.b == 1 || x.b == n) {
                    return None;
                }
                if ids.iter().any(|&i| i >= x.at(*d)) {
                    return None;
                }
                one(x.with(*d, 1).with_b(x.b.max(n)))
            }
            Matmul => {
                let y = a[1];
                if !x.is_matrix() || !y.is_matrix() || x.d[1] != y.d[0] || !x.compat(&y) {
                    return None;
                }
                one(Sh::new(&[x.d[0], y.d[1]], x.b.max(y.b)))
            }
            Transpose => {
                if !x.is_matrix() {
                    return None;
                }
                one(Sh::new(&[x.d[1], x.d[0]], x.b))
            }
            TriL(_) | TriU(_) => {
                if !x.is_matrix() || x.d[0] != x.d[1] {
                    return None;
                }
                one(x)
            }
            Slice(d, l, u) => {
                if !dim_ok(*d) || l >= u || *u > x.at(*d) {
                    return None;
                }
                one(x.with(*d, u - l))
            }
            Split(d, n) => {
                if !dim_ok(*d) || *n == 0 || x.at(*d) % n != 0 {
                    return None;
                }
                Some(vec![x.with(*d, x.at(*d) / n); *n as usize])
            }
            Concat(d) => {
                if !dim_ok(*d) {
                    return None;
                }
                let mut bb = 1;
                let mut total = 0u64;
                for s in a {
                    if !s.with(*d, 1).same_dims(&x.with(*d, 1)) {
                        return None;
                    }
                    if s.b != 1 {
                        if bb != 1 && bb != s.b {
                            return None;
                        }
                        bb = s.b;
                    }
                    total += s.at(*d) as u64;
                }
                if total > u32::MAX as u64 {
                    return None;
                }
                one(x.with(*d, total as u32).with_b(bb))
            }
            Reshape(s) => {
                if s.size() != x.size() {
                    return None;
                }
                one(*s)
            }
            Flatten => one(Sh::new(&[x.vol() as u32], x.b)),
            BatchSum | BatchMean => one(x.with_b(1)),
            BatchSlice(l, u) => {
                if l >= u || *u > x.b {
                    return None;
                }
                one(x.with_b(u - l))
            }
            BatchSplit(n) => {
                if *n == 0 || x.b % n != 0 {
                    return None;
                }
                Some(vec![x.with_b(x.b / n); *n as usize])
            }
            BatchPick(ids) => {
                if ids.is_empty() || ids.iter().any(|&i| i >= x.b) {
                    return None;
                }
                one(x.with_b(ids.len() as u32))
            }
            BatchConcat => {
                let mut t = 0u64;
                for s in a {
                    if !s.same_dims(&x) {
                        return None;
                    }
                    t += s.b as u64;
                }
                if t > u32::MAX as u64 {
                    return None;
                }
                one(x.with_b(t as u32))
            }
            SliceSum => {
                let mut s = x;
                for y in a {
                    s = bin_rule(&s, y)?;
                }
                one(s)
            }
            BatchNorm(_, en) => {
                if !*en {
                    return one(x);
                }
                let s = x; // self - mean, divided by a batch-1 tensor
                let s = bin_rule(&a[1], &s)?;
                one(bin_rule(&s, &a[2])?)
            }
            LayerNorm(_) => {
                let s = bin_rule(&a[1], &x)?;
                one(bin_rule(&s, &a[2])?)
            }
            Dropout(..) => one(x),
            DropoutDim(d, _, en) => {
                if *en && !dim_ok(*d) {
                    // rate >= 1 does not use the dimension; not generated
                    return one(x);
                }
                one(x)
            }
        }
    }

    /// Reference evaluation; the operands must be accepted by `infer`.
    pub fn eval<N: Num>(&self, a: &[&RT<N>]) -> Vec<RT<N>> {
        let x = a[0];
        let f = |v: f32| N::c(v as f64);
        let r = match self {
            Add => zip(x, a[1], |p, q| p.add(q)),
            Sub => zip(x, a[1], |p, q| p.sub(q)),
            Mul => zip(x, a[1], |p, q| p.mul(q)),
            Div => zip(x, a[1], |p, q| p.div(q)),
            Pow => zip(x, a[1], |p, q| p.pow(q)),
            AddK(k) => x.map(|p| p.add(f(*k))),
            SubK(k) => x.map(|p| p.sub(f(*k))),
            MulK(k) => x.map(|p| p.mul(f(*k))),
            DivK(k) => x.map(|p| p.div(f(*k))),
            PowK(k) => x.map(|p| p.powk(*k as f64)),
            KAdd(k) => x.map(|p| f(*k).add(p)),
            KSub(k) => x.map(|p| f(*k).sub(p)),
            KMul(k) => x.map(|p| f(*k).mul(p)),
            KDiv(k) => x.map(|p| f(*k).div(p)),
            KPow(k) => x.map(|p| f(*k).pow(p)),
            Powi(k) => x.map(|p| p.powi(*k)),
            Neg => x.map(|p| p.neg()),
            Sqrt => x.map(|p| p.sqrt()),
            Abs => x.map(|p| p.abs()),
            Sin => x.map(|p| p.sin()),
            Cos => x.map(|p| p.cos()),
            Tan => x.map(|p| p.tan()),
            Exp => x.map(|p| p.exp()),
            Ln => x.map(|p| p.ln()),
            Tanh => x.map(|p| p.tanh()),
            Sigmoid => x.map(|p| p.sigmoid()),
            Softplus => x.map(|p| p.softplus()),
            Relu => x.map(|p| p.prelu(0.)),
            Lrelu => x.map(|p| p.prelu(0.01f32 as f64)),
            Prelu(k) => x.map(|p| p.prelu(*k as f64)),
            Elu(k) => x.map(|p| p.elu(*k as f64)),
            Sum(d) => x.reduce(*d, |l| N::sum(l)),
            Max(d) => x.reduce(*d, |l| extreme(l, 1.)),
            Min(d) => x.reduce(*d, |l| extreme(l, -1.)),
            Lse(d) => x.reduce(*d, |l| N::lse(l)),
            LnSoftmax(d) => ln_softmax(x, *d),
            Softmax(d) => ln_softmax(x, *d).map(|p| p.exp()),
            Broadcast(d, n) => {
                let s = x.s.with(*d, *n);
                RT::build(s, |c, b| {
                    let mut c = *c;
                    c[*d as usize] = 0;
                    x.g(&c, b)
                })
            }
            Sce(d) => {
                let l = ln_softmax(x, *d);
                let t = a[1];
                let s = x.s.with(*d, 1).with_b(x.s.b.max(t.s.b));
                RT::build(s, |c, b| {
                    let p: Vec<N> = l
                        .line(c, b, *d)
                        .into_iter()
                        .zip(t.line(c, b, *d))
                        .map(|(u, v)| u.mul(v))
                        .collect();
                    N::sum(&p).neg()
                })
            }
            SparseSce(ids, d) => {
                let l = ln_softmax(x, *d);
                pick(&l, ids, *d).map(|p| p.neg())
            }
            Pick(ids, d) => pick(x, ids, *d),
            Matmul => {
                let y = a[1];
                let s = Sh::new(&[x.s.d[0], y.s.d[1]], x.s.b.max(y.s.b));
                RT::build(s, |c, b| {
                    let mut p = x.line(&[c[0], 0, 0, 0, 0, 0, 0, 0], b, 1);
                    let q = y.line(&[0, c[1], 0, 0, 0, 0, 0, 0], b, 0);
                    for (u, v) in p.iter_mut().zip(q) {
                        *u = u.mul(v);
                    }
                    N::sum(&p)
                })
            }
            Transpose => {
                let s = Sh::new(&[x.s.d[1], x.s.d[0]], x.s.b);
                RT::build(s, |c, b| {
                    let mut k = *c;
                    k.swap(0, 1);
                    x.g(&k, b)
                })
            }
            // keeps the elements at and below (above) the diagonal that is k below (above) the main one
            TriL(k) => RT::build(x.s, |c, b| {
                if c[0] as i64 >= c[1] as i64 + *k as i64 {
                    x.g(c, b)
                } else {
                    N::c(0.)
                }
            }),
            TriU(k) => RT::build(x.s, |c, b| {
                if c[1] as i64 >= c[0] as i64 + *k as i64 {
                    x.g(c, b)
                } else {
                    N::c(0.)
                }
            }),
            Slice(d, l, u) => slice(x, *d, *l, *u),
            Split(d, n) => {
                let k = x.s.at(*d) / n;
                return (0..*n).map(|i| slice(x, *d, i * k, (i + 1) * k)).collect();
            }
            Concat(d) => {
                let shapes: Vec<Sh> = a.iter().map(|t| t.s).collect();
                let s = self.infer(&shapes).unwrap()[0];
                RT::build(s, |c, b| {
                    let mut c = *c;
                    for t in a {
                        if c[*d as usize] < t.s.d[*d as usize] {
                            return t.g(&c, b);
                        }
                        c[*d as usize] -= t.s.d[*d as usize];
                    }
                    unreachable!()
                })
            }
            Reshape(s) => RT { s: *s, x: x.x.clone() },
            Flatten => RT { s: Sh::new(&[x.s.vol() as u32], x.s.b), x: x.x.clone() },
            BatchSum => batch_sum(x),
            BatchMean => batch_sum(x).map(|p| p.div(N::c(x.s.b as f64))),
            BatchSlice(l, u) => batch_slice(x, *l, *u),
            BatchSplit(n) => {
                let k = x.s.b / n;
                return (0..*n).map(|i| batch_slice(x, i * k, (i + 1) * k)).collect();
            }
            BatchPick(ids) => RT::build(x.s.with_b(ids.len() as u32), |c, b| {
                x.x[x.s.index(c, ids[b as usize])]
            }),
            BatchConcat => {
                let mut v = vec![];
                for t in a {
                    v.extend_from_slice(&t.x);
                }
                RT { s: x.s.with_b(a.iter().map(|t| t.s.b).sum()), x: v }
            }
            Mean(d) => {
                let n = x.s.at(*d) as f64;
                x.reduce(*d, |l| N::sum(l).div(N::c(n)))
            }
            SliceSum => {
                let mut r = x.map(|_| N::c(0.));
                for t in a {
                    r = zip(&r, t, |p, q| p.add(q));
                }
                r
            }
            BatchNorm(eps, en) => {
                if !*en {
                    return vec![x.clone()];
                }
                let n = x.s.b as f64;
                let m = batch_sum(x).map(|p| p.div(N::c(n)));
                let c = RT::build(x.s, |i, b| x.g(i, b).sub(m.g(i, 0)));
                let v = batch_sum(&c.map(|p| p.mul(p))).map(|p| p.div(N::c(n)).add(f(*eps)).sqrt());
                let y = RT::build(x.s, |i, b| c.g(i, b).div(v.g(i, 0)));
                zip(&zip(a[1], &y, |p, q| p.mul(q)), a[2], |p, q| p.add(q))
            }
            LayerNorm(eps) => {
                let vol = x.s.vol() as usize;
                let mut y = x.clone();
                for b in 0..x.s.b as usize {
                    let l = &x.x[b * vol..(b + 1) * vol];
                    let m = N::sum(l).div(N::c(vol as f64));
                    let c: Vec<N> = l.iter().map(|p| p.sub(m)).collect();
                    let q: Vec<N> = c.iter().map(|p| p.mul(*p)).collect();
                    let s = N::sum(&q).div(N::c(vol as f64)).add(f(*eps)).sqrt();
                    for i in 0..vol {
                        y.x[b * vol + i] = c[i].div(s);
                    }
                }
                zip(&zip(a[1], &y, |p, q| p.mul(q)), a[2], |p, q| p.add(q))
            }
            Dropout(r, en) | DropoutDim(_, r, en) => {
                if !*en {
                    x.clone()
                } else if *r >= 1. {
                    x.map(|p| p.mul(N::c(0.)))
                } else {
                    crate::harness_error!("random dropout has no reference")
                }
            }
        };
        vec![r]
    }
}

fn extreme<N: Num>(l: &[N], sign: f64) -> N {
    let mut k = 0;
    for i in 1..l.len() {
        if sign * l[i].v() > sign * l[k].v() {
            k = i;
        }
    }
    for i in 0..l.len() {
        if i != k && (l[i].v() - l[k].v()).abs() < 1e-3 {
            kink();
        }
    }
    l[k]
}
fn ln_softmax<N: Num>(x: &RT<N>, d: u32) -> RT<N> {
    let z = x.reduce(d, |l| N::lse(l));
    RT::build(x.s, |c, b| {
        let mut k = *c;
        k[d as usize] = 0;
        x.g(c, b).sub(z.g(&k, b))
    })
}
fn pick<N: Num>(x: &RT<N>, ids: &[u32], d: u32) -> RT<N> {
    let s = x.s.with(d, 1).with_b(x.s.b.max(ids.len() as u32));
    RT::build(s, |c, b| {
        let mut k = *c;
        k[d as usize] = if ids.len() == 1 { ids[0] } else { ids[b as usize] };
        x.g(&k, b)
    })
}
fn slice<N: Num>(x: &RT<N>, d: u32, l: u32, u: u32) -> RT<N> {
    RT::build(x.s.with(d, u - l), |c, b| {
        let mut k = *c;
        k[d as usize] += l;
        x.g(&k, b)
    })
}
fn batch_slice<N: Num>(x: &RT<N>, l: u32, u: u32) -> RT<N> {
    RT::build(x.s.with_b(u - l), |c, b| x.x[x.s.index(c, b + l)])
}
fn batch_sum<N: Num>(x: &RT<N>) -> RT<N> {
    RT::build(x.s.with_b(1), |c, _| {
        let l: Vec<N> = (0..x.s.b).map(|b| x.x[x.s.index(c, b)]).collect();
        N::sum(&l)
    })
}

pub type Dev = &'static Device<'static>;
pub fn leak(d: Device<'static>) -> Dev {
    Box::leak(Box::new(d))
}
pub fn naive() -> Dev {
    leak(prima_undine::devices::Naive::new())
}

macro_rules! bin_style {
    ($op:tt, $a:expr, $b:expr, $style:expr, $own:expr) => {
        match $style % 4 {
            0 => $a $op $b,
            1 => $own($a) $op $b,
            2 => $a $op $own($b),
            _ => $own($a) $op $own($b),
        }
    };
}
macro_rules! const_style {
    ($op:tt, $a:expr, $k:expr, $style:expr, $own:expr) => {
        match $style % 4 {
            0 => $a $op $k,
            1 => $a $op &$k,
            2 => $own($a) $op $k,
            _ => $own($a) $op &$k,
        }
    };
}
macro_rules! const_style_l {
    ($op:tt, $a:expr, $k:expr, $style:expr, $own:expr) => {
        match $style % 4 {
            0 => $k $op $a,
            1 => &$k $op $a,
            2 => $k $op $own($a),
            _ => &$k $op $own($a),
        }
    };
}

macro_rules! apply_body {
    ($self:expr, $xs:expr, $style:expr, $own:expr, $kpow:expr, $neg:expr) => {{
        let x = $xs[0];
        match $self {
            Add => vec![bin_style!(+, x, $xs[1], $style, $own)],
            Sub => vec![bin_style!(-, x, $xs[1], $style, $own)],
            Mul => vec![bin_style!(*, x, $xs[1], $style, $own)],
            Div => vec![bin_style!(/, x, $xs[1], $style, $own)],
            Pow => vec![if $style % 2 == 0 { x.pow($xs[1]) } else { x.pow($own($xs[1])) }],
            AddK(k) => vec![const_style!(+, x, *k, $style, $own)],
            SubK(k) => vec![const_style!(-, x, *k, $style, $own)],
            MulK(k) => vec![const_style!(*, x, *k, $style, $own)],
            DivK(k) => vec![const_style!(/, x, *k, $style, $own)],
            KAdd(k) => vec![const_style_l!(+, x, *k, $style, $own)],
            KSub(k) => vec![const_style_l!(-, x, *k, $style, $own)],
            KMul(k) => vec![const_style_l!(*, x, *k, $style, $own)],
            KDiv(k) => vec![const_style_l!(/, x, *k, $style, $own)],
            PowK(k) => vec![x.powf(*k)],
            KPow(k) => $kpow(x, *k),
            Powi(k) => vec![x.powi(*k)],
            Neg => vec![if $style % 2 == 0 { -x } else { $neg(x) }],
            Sqrt => vec![x.sqrt()],
            Abs => vec![x.abs()],
            Sin => vec![x.sin()],
            Cos => vec![x.cos()],
            Tan => vec![x.tan()],
            Exp => vec![x.exp()],
            Ln => vec![x.ln()],
            Tanh => vec![x.tanh()],
            Sigmoid => vec![x.sigmoid()],
            Softplus => vec![x.softplus()],
            Relu => vec![x.relu()],
            Lrelu => vec![x.lrelu()],
            Prelu(k) => vec![x.prelu(*k)],
            Elu(k) => vec![x.elu(*k)],
            Sum(d) => vec![x.sum(*d)],
            Max(d) => vec![x.max(*d)],
            Min(d) => vec![x.min(*d)],
            Broadcast(d, n) => vec![x.broadcast(*d, *n)],
            Lse(d) => vec![x.logsumexp(*d)],
            LnSoftmax(d) => vec![x.ln_softmax(*d)],
            Softmax(d) => vec![x.softmax(*d)],
            Sce(d) => vec![if $style % 2 == 0 {
                x.softmax_cross_entropy($xs[1], *d)
            } else {
                x.softmax_cross_entropy($own($xs[1]), *d)
            }],
            SparseSce(ids, d) => vec![x.sparse_softmax_cross_entropy(ids, *d)],
            Matmul => vec![if $style % 2 == 0 { x.matmul($xs[1]) } else { x.matmul($own($xs[1])) }],
            Transpose => vec![x.transpose()],
            TriL(k) => vec![x.triangular_l(*k)],
            TriU(k) => vec![x.triangular_u(*k)],
            Slice(d, l, u) => vec![x.slice(*d, *l, *u)],
            Split(d, n) => x.split(*d, *n),
            Pick(ids, d) => vec![x.pick(ids, *d)],
            Concat(d) => vec![BasicFunctions::concat($xs, *d)],
            Reshape(s) => vec![x.reshape(s.real())],
            Flatten => vec![x.flatten()],
            BatchSum => vec![x.batch_sum()],
            BatchSlice(l, u) => vec![x.batch_slice(*l, *u)],
            BatchSplit(n) => x.batch_split(*n),
            BatchPick(ids) => vec![x.batch_pick(ids)],
            BatchConcat => vec![BasicFunctions::batch_concat($xs)],
            Mean(d) => vec![x.mean(*d)],
            BatchMean => vec![x.batch_mean()],
            SliceSum => vec![ContribFunctions::slice_sum($xs)],
            BatchNorm(e, en) => vec![x.batch_normalization($xs[1], $xs[2], *e, *en)],
            LayerNorm(e) => vec![x.layer_normalization($xs[1], $xs[2], *e)],
            Dropout(r, en) => vec![x.dropout(*r, *en)],
            DropoutDim(d, r, en) => vec![x.dropout_dim(*d, *r, *en)],
        }
    }};
}

fn own_t<'a>(x: &'a Tensor<'a>) -> Tensor<'a> {
    x.device().copy_tensor(x)
}
fn neg_t<'a>(x: &'a Tensor<'a>) -> Tensor<'a> {
    -x.device().copy_tensor(x)
}
fn kpow_t<'a>(x: &'a Tensor<'a>, k: f32) -> Vec<Tensor<'a>> {
    vec![x.device().powf_const_l_fw(x, k)]
}

/// Applies the operation to tensors. Styles: bits 0-1 select owned/borrowed operands.
pub fn eager<'a>(op: &Op, xs: &[&'a Tensor<'a>], style: u32) -> Vec<Tensor<'a>> {
    apply_body!(op, xs, style, own_t, kpow_t, neg_t)
}

/// The same through views of the operands; the results are copied.
pub fn eager_views(op: &Op, dev: Dev, xs: &[&Tensor<'static>], style: u32) -> Vec<Tensor<'static>> {
    let vs: Vec<Tensor> = xs.iter().map(|x| Tensor::from(*x)).collect();
    let rs: Vec<&Tensor> = vs.iter().collect();
    let ys = eager(op, &rs, style);
    ys.iter().map(|y| dev.copy_tensor(y)).collect()
}

fn own_n<'a>(x: &Node<'a, 'static>) -> Node<'a, 'static> {
    x.reshape(x.shape())
}
fn neg_n<'a>(x: &Node<'a, 'static>) -> Node<'a, 'static> {
    -own_n(x)
}
fn kpow_n<'a>(_: &Node<'a, 'static>, _: f32) -> Vec<Node<'a, 'static>> {
    crate::harness_error!("no node operation")
}
pub fn lazy<'a>(op: &Op, xs: &[&Node<'a, 'static>], style: u32) -> Vec<Node<'a, 'static>> {
    apply_body!(op, xs, style, own_n, kpow_n, neg_n)
}

pub fn tensor(dev: Dev, s: Sh, x: &[f32]) -> Tensor<'static> {
    dev.new_tensor_by_slice(s.real(), x)
}

/// Fills every kind of buffer the device may recycle with garbage: buffers are taken out of the
/// device, written and released.
pub fn poison(dev: Dev, sizes: &[u32], copies: usize, k: f32) {
    for &s in sizes {
        let v: Vec<Tensor> = (0..copies)
            .map(|_| dev.new_tensor_by_constant(prima_undine::Shape::new(&[s], 1), k))
            .collect();
        drop(v);
    }
}
