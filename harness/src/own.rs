//! A backend of our own with reference kernels. Buffers are kept in a table, handles are addresses
//! nothing may dereference; every call is checked against the kernel's contract.
use crate::ops::Op;
use crate::refm::*;
use prima_undine::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::devices::Naive;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Tensor};
use std::collections::{BTreeMap, HashMap};
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

/// A tensor that never got a buffer: refused by a panic, as the built-in kernels do.
const EMPTY: &str = "a tensor without a buffer";
const POISON: u32 = 0x7fc0_dead;
static NEXT: AtomicUsize = AtomicUsize::new(0);

pub type Call = (String, Option<String>, Vec<(Sh, Vec<f32>)>);

#[derive(Default)]
pub struct State {
    pub bufs: HashMap<usize, Vec<f32>>,
    pub bad: Vec<String>,
    pub calls: BTreeMap<String, u64>,
    pub allocs: u64,
    pub frees: u64,
    pub checked: u64,
    /// kernels called, with the operation each stands for and its operands in order
    pub log: Option<Vec<Call>>,
    rnd: u64,
}
pub struct Own {
    st: Mutex<State>,
    inner: Device<'static>,
}
impl Own {
    pub fn st(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// The first complaint since the last call.
    pub fn verdict(&self) -> Result<(), String> {
        let v = std::mem::take(&mut self.st().bad);
        match v.first() {
            None => Ok(()),
            Some(m) => Err(m.clone()),
        }
    }
    pub fn ncalls(&self) -> u64 {
        self.st().calls.values().sum()
    }
}

fn handle(t: &Tensor) -> usize {
    t.handle().load(Ordering::SeqCst) as usize
}

impl State {
    fn buf(&self, t: &Tensor, what: &str) -> Result<&Vec<f32>, String> {
        let h = handle(t);
        let n = t.shape().size() as usize;
        if h == 0 {
            return Err(EMPTY.to_string());
        }
        match self.bufs.get(&h) {
            None => Err(format!("{} of shape {:?} has handle {:#x}, which is not a live buffer of this backend", what, t.shape(), h)),
            Some(b) if b.len() < n => Err(format!("{} of shape {:?} has a buffer of {} elements", what, t.shape(), b.len())),
            Some(b) => Ok(b),
        }
    }
    fn read(&mut self, t: &Tensor, what: &str) -> Result<(Sh, Vec<f32>), String> {
        self.checked += 1;
        let n = t.shape().size() as usize;
        let v = self.buf(t, what)?[..n].to_vec();
        if let Some(i) = v.iter().position(|x| x.to_bits() == POISON) {
            return Err(format!("{} of shape {:?} has no computed value at element {}", what, t.shape(), i));
        }
        Ok((Sh::of(t.shape()), v))
    }
    fn write(&mut self, t: &Tensor, v: &[f32], what: &str) -> Result<(), String> {
        self.checked += 1;
        let n = t.shape().size() as usize;
        self.buf(t, what)?;
        if n != v.len() {
            return Err(format!("{} has shape {:?}, the result has {} elements", what, t.shape(), v.len()));
        }
        self.bufs.get_mut(&handle(t)).unwrap()[..n].copy_from_slice(v);
        Ok(())
    }
    fn unit(&mut self) -> f64 {
        self.rnd = self.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.rnd >> 11) as f64 / (1u64 << 53) as f64
    }
}

struct Imp(Arc<Own>);
impl DeviceImpl for Imp {
    fn identifier(&self) -> String {
        "Own".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let mut s = self.0.st();
        s.allocs += 1;
        if size == 0 || size > 1 << 26 {
            s.bad.push(format!("the backend was asked for {} elements", size));
        }
        // not a canonical address
        let h = 0xdead_0000_0000_0000 + 64 * (1 + NEXT.fetch_add(1, Ordering::SeqCst));
        let n = (size as usize).min(1 << 26);
        s.bufs.insert(h, vec![f32::from_bits(POISON); n]);
        AtomicPtr::new(h as *mut c_void)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        let mut s = self.0.st();
        s.frees += 1;
        let h = h.load(Ordering::SeqCst) as usize;
        if s.bufs.remove(&h).is_none() {
            s.bad.push(format!("the backend was asked to free {:#x}, which is not a live buffer of it", h));
        }
    }
}

type R<T> = Result<T, String>;
fn need(c: bool, m: &str) -> R<()> {
    if c {
        Ok(())
    } else {
        Err(m.to_string())
    }
}
fn counts(xs: usize, want: usize, u: &[u32], nu: usize, f: &[f32], nf: usize) -> R<()> {
    need(xs == want && u.len() == nu && f.len() == nf, &format!("{} operands, {} integers and {} numbers were passed instead of {}, {} and {}", xs, u.len(), f.len(), want, nu, nf))
}

/// The operation of a forward kernel and the order of its operands; None for other kernels.
/// `ys` is the shape of the result, needed where the arguments do not say everything.
fn op_of(name: &str, s: &[Sh], u: &[u32], f: &[f32], ys: Option<Sh>) -> R<Option<(Op, Vec<usize>)>> {
    use Op::*;
    let n = s.len();
    let same = |op: Op| -> R<Option<(Op, Vec<usize>)>> {
        counts(n, 2, u, 0, f, 0)?;
        need(s[0].same_dims(&s[1]), "the operands of an element-wise kernel have different dimensions")?;
        Ok(Some((op, vec![0, 1])))
    };
    let scalar = |op: Op, left: bool| -> R<Option<(Op, Vec<usize>)>> {
        counts(n, 2, u, 0, f, 0)?;
        need(s[1].is_scalar(), "the second operand of a scalar kernel is no scalar")?;
        Ok(Some((op, if left { vec![1, 0] } else { vec![0, 1] })))
    };
    let x = |op: Op| -> R<Option<(Op, Vec<usize>)>> {
        counts(n, 1, u, 0, f, 0)?;
        Ok(Some((op, vec![0])))
    };
    let k = |op: &dyn Fn(f32) -> Op| -> R<Option<(Op, Vec<usize>)>> {
        counts(n, 1, u, 0, f, 1)?;
        Ok(Some((op(f[0]), vec![0])))
    };
    let u1 = |op: &dyn Fn(u32) -> Op| -> R<Option<(Op, Vec<usize>)>> {
        counts(n, 1, u, 1, f, 0)?;
        Ok(Some((op(u[0]), vec![0])))
    };
    match name {
        "add" => same(Add),
        "sub" => same(Sub),
        "mul" => same(Mul),
        "div" => same(Div),
        "powf" => same(Pow),
        "add_const" => k(&AddK),
        "mul_const" => k(&MulK),
        "sub_const_l" => k(&KSub),
        "sub_const_r" => k(&SubK),
        "div_const_l" => k(&KDiv),
        "div_const_r" => k(&DivK),
        "powf_const_l" => k(&KPow),
        "powf_const_r" => k(&PowK),
        "add_scalar" => scalar(Add, false),
        "mul_scalar" => scalar(Mul, false),
        "sub_scalar_l" => scalar(Sub, true),
        "sub_scalar_r" => scalar(Sub, false),
        "div_scalar_l" => scalar(Div, true),
        "div_scalar_r" => scalar(Div, false),
        "powf_scalar_l" => scalar(Pow, true),
        "powf_scalar_r" => scalar(Pow, false),
        "neg" => x(Neg),
        "sqrt" => x(Sqrt),
        "abs" => x(Abs),
        "powi" => u1(&|k| Powi(k as i32)),
        "sin" => x(Sin),
        "cos" => x(Cos),
        "tan" => x(Tan),
        "exp" => x(Exp),
        "ln" => x(Ln),
        "tanh" => x(Tanh),
        "sigmoid" => x(Sigmoid),
        "softplus" => x(Softplus),
        "sum" => u1(&Sum),
        "logsumexp" => u1(&Lse),
        "max" => u1(&Max),
        "min" => u1(&Min),
        "broadcast" => {
            counts(n, 1, u, 2, f, 0)?;
            Ok(Some((Broadcast(u[0], u[1]), vec![0])))
        }
        "matmul" => {
            counts(n, 2, u, 0, f, 0)?;
            Ok(Some((Matmul, vec![0, 1])))
        }
        "transpose" => x(Transpose),
        "triangular_l" => u1(&TriL),
        "triangular_u" => u1(&TriU),
        "prelu" => k(&Prelu),
        "elu" => k(&Elu),
        "slice" => {
            counts(n, 1, u, 2, f, 0)?;
            let y = ys.ok_or("no result")?;
            let hi = (u[1] as u64 + y.at(u[0]) as u64).min(u32::MAX as u64) as u32;
            Ok(Some((Slice(u[0], u[1], hi), vec![0])))
        }
        "pick" => {
            need(n == 1 && u.len() >= 2 && f.is_empty(), "pick needs an operand, a dimension and indices")?;
            Ok(Some((Pick(u[1..].to_vec(), u[0]), vec![0])))
        }
        "concat" => {
            need(n >= 1 && u.len() == 1 && f.is_empty(), "concat needs operands and a dimension")?;
            Ok(Some((Concat(u[0]), (0..n).collect())))
        }
        "batch_concat" => {
            need(n >= 1 && u.is_empty() && f.is_empty(), "batch_concat needs operands only")?;
            Ok(Some((BatchConcat, (0..n).collect())))
        }
        "batch_sum" => x(BatchSum),
        "batch_slice" => {
            // the upper end is passed to the forward kernel only
            need(n == 1 && (u.len() == 1 || u.len() == 2) && f.is_empty(), "batch_slice needs an operand and bounds")?;
            let y = ys.ok_or("no result")?;
            let hi = u[0].saturating_add(y.b);
            need(u.len() == 1 || u[1] == hi, "the bounds of batch_slice do not match the result")?;
            Ok(Some((BatchSlice(u[0], hi), vec![0])))
        }
        "batch_pick" => {
            need(n == 1 && !u.is_empty() && f.is_empty(), "batch_pick needs an operand and indices")?;
            Ok(Some((BatchPick(u.to_vec()), vec![0])))
        }
        _ => Ok(None),
    }
}

struct K {
    o: Arc<Own>,
    name: String,
}

impl K {
    fn begin(&self) -> MutexGuard<'_, State> {
        let mut s = self.o.st();
        *s.calls.entry(self.name.clone()).or_insert(0) += 1;
        s
    }
    fn end(&self, r: R<()>, xs: &[&Tensor], u: &[u32], f: &[f32]) {
        if let Err(m) = r {
            assert!(m != EMPTY, "{}", m);
            let sh: Vec<_> = xs.iter().map(|x| Sh::of(x.shape())).collect();
            let f = &f[..f.len().min(8)];
            self.o.st().bad.push(format!("kernel {} called with {:?} {:?} {:?}: {}", self.name, sh, u, f, m));
        }
    }

    fn fw(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) -> R<()> {
        let mut st = self.begin();
        let name = self.name.as_str();
        let direct = |n: usize, y: &[&mut Tensor]| need(xs.len() == n && y.len() == 1, "wrong number of tensors");
        match name {
            "reset_tensor_impl" => {
                direct(0, ys)?;
                counts(0, 0, u, 0, f, 1)?;
                let v = vec![f[0]; ys[0].shape().size() as usize];
                return st.write(ys[0], &v, "the destination");
            }
            "reset_tensor_by_slice_impl" => {
                direct(0, ys)?;
                return st.write(ys[0], f, "the destination");
            }
            "reset_tensor_by_tensor_impl" => {
                direct(1, ys)?;
                let (_, v) = st.read(xs[0], "the source")?;
                return st.write(ys[0], &v, "the destination");
            }
            "mul_assign_const_impl" => {
                direct(0, ys)?;
                counts(0, 0, u, 0, f, 1)?;
                let (_, mut v) = st.read(ys[0], "the destination")?;
                v.iter_mut().for_each(|x| *x *= f[0]);
                return st.write(ys[0], &v, "the destination");
            }
            "add_assign_impl" | "sub_assign_impl" => {
                direct(1, ys)?;
                counts(1, 1, u, 0, f, 0)?;
                let (xs_, x) = st.read(xs[0], "the operand")?;
                let (ysh, mut y) = st.read(ys[0], "the destination")?;
                need(xs_.same_dims(&ysh) && xs_.compat(&ysh), &format!("a destination of shape {:?} does not match", ysh))?;
                let vol = xs_.vol() as usize;
                for b in 0..xs_.b.max(ysh.b) as usize {
                    for i in 0..vol {
                        let d = x[if xs_.b == 1 { 0 } else { b } * vol + i];
                        let e = &mut y[if ysh.b == 1 { 0 } else { b } * vol + i];
                        *e += if name == "add_assign_impl" { d } else { -d };
                    }
                }
                return st.write(ys[0], &y, "the destination");
            }
            "random_bernoulli_impl" | "random_uniform_impl" | "random_normal_impl" => {
                direct(0, ys)?;
                counts(0, 0, u, 0, f, if name == "random_bernoulli_impl" { 1 } else { 2 })?;
                let n = ys[0].shape().size() as usize;
                let v: Vec<f32> = (0..n)
                    .map(|_| match name {
                        "random_bernoulli_impl" => (st.unit() < f[0] as f64) as u32 as f32,
                        "random_uniform_impl" => (f[1] as f64 - (f[1] as f64 - f[0] as f64) * st.unit()) as f32,
                        _ => {
                            let (a, b) = (1. - st.unit(), st.unit());
                            (f[0] as f64 + f[1] as f64 * (-2. * a.ln()).sqrt() * (6.283185307179586 * b).cos()) as f32
                        }
                    })
                    .collect();
                return st.write(ys[0], &v, "the destination");
            }
            _ => (),
        }
        let mut x = vec![];
        for (i, t) in xs.iter().enumerate() {
            x.push(st.read(t, &format!("operand {}", i))?);
        }
        let s: Vec<Sh> = x.iter().map(|x| x.0).collect();
        let known = match name.strip_suffix("_fw_impl") {
            Some(n) => op_of(n, &s, u, f, ys.get(0).map(|y| Sh::of(y.shape())))?,
            None => None,
        };
        if let Some(l) = &mut st.log {
            let hs = match &known {
                Some((_, o)) => o.iter().map(|i| x[*i].clone()).collect(),
                None => x.clone(),
            };
            l.push((name.to_string(), known.as_ref().map(|k| format!("{:?}", k.0)), hs));
        }
        if let Some((op, order)) = known {
            need(ys.len() == 1, "a single result is expected")?;
            let so: Vec<Sh> = order.iter().map(|&i| s[i]).collect();
            let want = op.infer(&so).ok_or("the operands are not compatible")?;
            let ysh = Sh::of(ys[0].shape());
            need(want == [ysh], &format!("the result has shape {:?} instead of {:?}", ysh, want))?;
            let rt: Vec<RT<f64>> = order.iter().map(|&i| RT::from_f32(s[i], &x[i].1)).collect();
            let rr: Vec<&RT<f64>> = rt.iter().collect();
            let y: Vec<f32> = op.eval(&rr)[0].x.iter().map(|&v| v as f32).collect();
            return st.write(ys[0], &y, "the result");
        }
        // not known: carried out by the built-in kernel
        for y in ys.iter() {
            st.buf(y, "a result")?;
        }
        let keep: Vec<Vec<f32>> = ys.iter().map(|y| st.bufs[&handle(y)][..y.shape().size() as usize].to_vec()).collect();
        drop(st);
        let d: &'static Device<'static> = unsafe { &*(&self.o.inner as *const _) };
        let ix: Vec<Tensor> = x.iter().map(|(s, v)| d.new_tensor_by_slice(s.real(), v)).collect();
        let mut iy: Vec<Tensor> = ys.iter().zip(&keep).map(|(y, v)| d.new_tensor_by_slice(y.shape(), v)).collect();
        {
            let rx: Vec<&Tensor> = ix.iter().collect();
            let mut ry: Vec<&mut Tensor> = iy.iter_mut().collect();
            d.call_fw_impl(name, &rx, u, f, &mut ry);
        }
        let out: Vec<Vec<f32>> = iy.iter().map(|y| y.to_vec()).collect();
        let mut st = self.o.st();
        for (y, v) in ys.iter().zip(&out) {
            st.write(y, v, "a result")?;
        }
        Ok(())
    }

    fn bw(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) -> R<()> {
        let mut st = self.begin();
        let name = self.name.as_str();
        let mut x = vec![];
        for (i, t) in xs.iter().enumerate() {
            x.push(st.read(t, &format!("operand {}", i))?);
        }
        let mut y = vec![];
        for (i, t) in ys.iter().enumerate() {
            y.push(st.read(t, &format!("result {}", i))?);
        }
        let mut gy = vec![];
        for (i, t) in gys.iter().enumerate() {
            gy.push(st.read(t, &format!("gradient of result {}", i))?);
        }
        let (gs, g) = st.read(gx, "the gradient")?;
        let base = match name.strip_suffix("_impl") {
            Some(n) => n,
            None => name,
        };
        let (base, at) = if let Some(n) = base.strip_suffix("_bw") {
            (n, 0)
        } else if let Some(n) = base.strip_suffix("_bw_a") {
            (n, 0)
        } else if let Some(n) = base.strip_suffix("_bw_b") {
            (n, 1)
        } else {
            ("", 0)
        };
        let linear = matches!(base, "slice" | "pick" | "batch_slice" | "batch_pick");
        let mut s: Vec<Sh> = x.iter().map(|x| x.0).collect();
        if linear {
            need(x.is_empty() && y.is_empty(), "operands are not expected")?;
            s = vec![gs];
            x.push((gs, vec![0.; gs.n()]));
        }
        let known = op_of(base, &s, u, f, gy.get(0).map(|y| y.0))?;
        if let Some(l) = &mut st.log {
            l.push((name.to_string(), known.as_ref().map(|k| format!("{:?}", k.0)), vec![]));
        }
        if let Some((op, _)) = known {
            need(gy.len() == 1 && (linear || y.len() == 1), "wrong number of results")?;
            need(linear || y[0].0 == gy[0].0, "a result and its gradient have different shapes")?;
            let want = op.infer(&s).ok_or("the operands are not compatible")?;
            need(want == [gy[0].0], &format!("the result has shape {:?} instead of {:?}", gy[0].0, want))?;
            need(at < s.len() && s[at] == gs, &format!("the gradient has shape {:?}", gs))?;
            if !linear {
                // the result belongs to the operands
                let rt: Vec<RT<Ev>> = x.iter().map(|(s, x)| RT::from_f32(*s, x)).collect();
                let rr: Vec<&RT<Ev>> = rt.iter().collect();
                let e = &op.eval(&rr)[0];
                for (i, (a, b)) in y[0].1.iter().zip(&e.x).enumerate() {
                    let d = (*a as f64 - b.v).abs();
                    if d > 8. * b.e + 1e-5 * b.v.abs() && b.v.is_finite() && b.v.abs() < 1e38 {
                        return Err(format!("element {} of the result is {}, the operands give {}", i, a, b.v));
                    }
                }
            }
            const L: usize = 16;
            let mut out = g.clone();
            for c in (0..gs.n()).step_by(L) {
                let rt: Vec<RT<Dual<L>>> = x
                    .iter()
                    .enumerate()
                    .map(|(i, (s, x))| {
                        let mut t = RT::<Dual<L>>::from_f32(*s, x);
                        if i == at {
                            for k in c..(c + L).min(gs.n()) {
                                t.x[k].d[k - c] = 1.;
                            }
                        }
                        t
                    })
                    .collect();
                let rr: Vec<&RT<Dual<L>>> = rt.iter().collect();
                let r = op.eval(&rr);
                for k in c..(c + L).min(gs.n()) {
                    let d: f64 = r[0].x.iter().zip(&gy[0].1).filter(|(_, w)| **w != 0.).map(|(e, w)| e.d[k - c] * *w as f64).sum();
                    out[k] = (out[k] as f64 + d) as f32;
                }
            }
            return st.write(gx, &out, "the gradient");
        }
        drop(st);
        let d: &'static Device<'static> = unsafe { &*(&self.o.inner as *const _) };
        let mk = |v: &Vec<(Sh, Vec<f32>)>| -> Vec<Tensor<'static>> { v.iter().map(|(s, v)| d.new_tensor_by_slice(s.real(), v)).collect() };
        let (ix, iy, igy) = (mk(&x), mk(&y), mk(&gy));
        let mut ig = d.new_tensor_by_slice(gs.real(), &g);
        {
            let (rx, ry, rg): (Vec<&Tensor>, Vec<&Tensor>, Vec<&Tensor>) = (ix.iter().collect(), iy.iter().collect(), igy.iter().collect());
            d.call_bw_impl(name, &rx, &ry, &rg, u, f, &mut ig);
        }
        let out = ig.to_vec();
        self.o.st().write(gx, &out, "the gradient")
    }

    fn fw_u32(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) -> R<()> {
        let mut st = self.begin();
        let mut x = vec![];
        for (i, t) in xs.iter().enumerate() {
            x.push(st.read(t, &format!("operand {}", i))?);
        }
        drop(st);
        match self.name.as_str() {
            n @ ("argmax_impl" | "argmin_impl") => {
                counts(x.len(), 1, u, 1, f, 0)?;
                let t = RT::<f64>::from_f32(x[0].0, &x[0].1);
                let sg = if n == "argmax_impl" { 1. } else { -1. };
                let y = t.reduce(u[0], |l| {
                    let mut k = 0;
                    for i in 1..l.len() {
                        if sg * l[i] > sg * l[k] {
                            k = i;
                        }
                    }
                    k as f64
                });
                need(y.x.len() == ys.len(), &format!("room for {} results instead of {}", ys.len(), y.x.len()))?;
                for (a, b) in ys.iter_mut().zip(&y.x) {
                    *a = *b as u32;
                }
            }
            "argsort_impl" => {
                counts(x.len(), 1, u, 1, f, 0)?;
                let (s, v) = &x[0];
                need(v.len() == ys.len(), &format!("room for {} results instead of {}", ys.len(), v.len()))?;
                s.with(u[0], 1).each(|c, b| {
                    let mut c = *c;
                    let pos: Vec<usize> = (0..s.at(u[0]))
                        .map(|i| {
                            if (u[0] as usize) < MD {
                                c[u[0] as usize] = i;
                            }
                            s.index(&c, b)
                        })
                        .collect();
                    let mut o = pos.clone();
                    o.sort_by(|&i, &j| v[i].partial_cmp(&v[j]).unwrap_or(std::cmp::Ordering::Equal));
                    for (p, q) in pos.iter().zip(o) {
                        ys[*p] = q as u32;
                    }
                });
            }
            name => {
                let d: &'static Device<'static> = unsafe { &*(&self.o.inner as *const _) };
                let ix: Vec<Tensor> = x.iter().map(|(s, v)| d.new_tensor_by_slice(s.real(), v)).collect();
                let rx: Vec<&Tensor> = ix.iter().collect();
                d.call_fw_u32_impl(name, &rx, u, f, ys);
            }
        }
        Ok(())
    }

    fn fw_f32(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) -> R<()> {
        let mut st = self.begin();
        let mut x = vec![];
        for (i, t) in xs.iter().enumerate() {
            x.push(st.read(t, &format!("operand {}", i))?);
        }
        drop(st);
        match self.name.as_str() {
            "tensor_to_vector_impl" => {
                counts(x.len(), 1, u, 0, f, 0)?;
                need(x[0].1.len() == ys.len(), &format!("room for {} values instead of {}", ys.len(), x[0].1.len()))?;
                ys.copy_from_slice(&x[0].1);
            }
            name => {
                let d: &'static Device<'static> = unsafe { &*(&self.o.inner as *const _) };
                let ix: Vec<Tensor> = x.iter().map(|(s, v)| d.new_tensor_by_slice(s.real(), v)).collect();
                let rx: Vec<&Tensor> = ix.iter().collect();
                d.call_fw_f32_impl(name, &rx, u, f, ys);
            }
        }
        Ok(())
    }
}

impl FunctionFwImpl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let r = self.fw(xs, u, f, ys);
        self.end(r, xs, u, f)
    }
}
impl FunctionFwU32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        let r = self.fw_u32(xs, u, f, ys);
        self.end(r, xs, u, f)
    }
}
impl FunctionFwF32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        let r = self.fw_f32(xs, u, f, ys);
        self.end(r, xs, u, f)
    }
}
impl FunctionBwImpl for K {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        let r = self.bw(xs, ys, gys, u, f, gx);
        self.end(r, xs, u, f)
    }
}

/// A device with all kernels but those in `skip`.
pub fn device(skip: &[&str]) -> (Device<'static>, Arc<Own>) {
    let inner = Naive::new();
    let names = inner.verif_kernel_names();
    let o = Arc::new(Own { st: Mutex::new(State { rnd: 0x1234567, ..State::default() }), inner });
    let mut d = Device::new(Imp(o.clone()));
    let k = |name: &str| K { o: o.clone(), name: name.to_string() };
    for (i, list) in names.iter().enumerate() {
        for n in list {
            if skip.contains(&n.as_str()) {
                continue;
            }
            match i {
                0 => d.register_fw_impl(n, k(n)),
                1 => d.register_fw_u32_impl(n, k(n)),
                2 => d.register_fw_f32_impl(n, k(n)),
                _ => d.register_bw_impl(n, k(n)),
            }
        }
    }
    (d, o)
}
