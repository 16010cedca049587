//! C07: no undefined behaviour through the safe API. Run under AddressSanitizer with exact buffers.
use hcore::ensure;
use hcore::interp::{self, Hook};
use hcore::gen::{self, any_dim, near};
use hcore::ops::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::work::{self, Digest, Work};
use hcore::world::World;
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions, RandomDeviceFunctions};
use std::ffi::c_void;
use std::sync::atomic::AtomicPtr;
use std::sync::Arc;
use prima_undine::{Device, Node, Parameter, Tensor};

type D = Device<'static>;
type T = Tensor<'static>;

/// Functions of devices, by signature.
type BwX = fn(&D, &T, &T, &T, &mut T);
type BwC = fn(&D, &T, &T, &T, f32, &mut T);
type BwAB = fn(&D, &T, &T, &T, &T, &mut T);
type BwU = fn(&D, &T, &T, &T, u32, &mut T);

macro_rules! table {
    ($($f:ident),*) => { &[$((stringify!($f), |d, x, y, gy, gx| d.$f(x, y, gy, gx))),*] };
    (c $($f:ident),*) => { &[$((stringify!($f), |d, x, y, gy, k, gx| d.$f(x, y, gy, k, gx))),*] };
    (ab $($f:ident),*) => { &[$((stringify!($f), |d, a, b, y, gy, gx| d.$f(a, b, y, gy, gx))),*] };
}
const BW_X: &[(&str, BwX)] = table!(neg_bw, sqrt_bw, abs_bw, sin_bw, cos_bw, tan_bw, exp_bw, ln_bw, tanh_bw, sigmoid_bw);
const BW_C: &[(&str, BwC)] = table!(c add_const_bw, sub_const_l_bw, sub_const_r_bw, mul_const_bw, div_const_l_bw, div_const_r_bw, prelu_bw, elu_bw, powf_const_l_bw, powf_const_r_bw);
const BW_AB: &[(&str, BwAB)] =
    table!(ab add_bw_a, add_bw_b, sub_bw_a, sub_bw_b, mul_bw_a, mul_bw_b, div_bw_a, div_bw_b, powf_bw_a, powf_bw_b);
const BW_MM: &[(&str, BwAB)] = table!(ab matmul_bw_a, matmul_bw_b);
const BW_DIM: &[(&str, BwU)] = table!(c max_bw, min_bw);
const BW_TRI: &[(&str, BwU)] = table!(c triangular_l_bw, triangular_u_bw);

type FwAB = for<'a> fn(&'a D, &'a T, &'a T) -> Tensor<'a>;
macro_rules! fwab { ($($f:ident),*) => { &[$((stringify!($f), |d, a, b| d.$f(a, b))),*] }; }
const FW_AB: &[(&str, FwAB)] = fwab!(add_fw, sub_fw, mul_fw, div_fw, powf_fw);
const FW_SC: &[(&str, FwAB)] = fwab!(
    add_scalar_fw, sub_scalar_l_fw, sub_scalar_r_fw, mul_scalar_fw, div_scalar_l_fw, div_scalar_r_fw, powf_scalar_l_fw, powf_scalar_r_fw
);

/// The naive backend with buffers that nobody has written to.
struct Uninit;
impl Hook for Uninit {
    fn alloc(&self, size: u32) -> AtomicPtr<c_void> {
        let mut v: Vec<f32> = Vec::with_capacity(size as usize);
        #[allow(clippy::uninit_vec)]
        unsafe {
            v.set_len(size as usize)
        };
        AtomicPtr::new(Box::into_raw(Box::new(v)) as *mut c_void)
    }
}

struct Call {
    /// tensors that are read, then the one written (if any)
    shapes: Vec<Sh>,
    writes: bool,
    u: Vec<u32>,
    k: f32,
    name: &'static str,
    group: u8,
    idx: usize,
}
fn elementwise(a: &Sh, b: &Sh) -> Option<Sh> {
    if a.same_dims(b) && a.compat(b) {
        Some(a.with_b(a.b.max(b.b)))
    } else {
        None
    }
}
fn slice(x: &Sh, d: u32, l: u32, u: u64) -> Option<Sh> {
    if (l as u64) < u && u <= x.at(d) as u64 {
        Some(x.with(d, (u - l as u64) as u32))
    } else {
        None
    }
}
fn pick(x: &Sh, ids: &[u32], d: u32) -> Option<Sh> {
    let n = ids.len() as u32;
    if n == 0 || !(x.b == n || x.b == 1 || n == 1) || ids.iter().any(|i| *i >= x.at(d)) {
        return None;
    }
    Some(x.with(d, 1).with_b(x.b.max(n)))
}
impl Call {
    fn make(r: &mut Rng, max: u64) -> Call {
        let group = r.below(17) as u8;
        let mut c = Call { shapes: vec![], writes: true, u: vec![], k: gen::small_k(r), name: "", group, idx: 0 };
        let x = gen::shape(r, max);
        let d = r.below(4) as u32;
        let pickn = |r: &mut Rng, n: usize| r.us(n);
        match group {
            0 => {
                c.idx = pickn(r, BW_X.len());
                c.name = BW_X[c.idx].0;
                c.shapes = vec![x; 4];
            }
            1 => {
                c.idx = pickn(r, BW_C.len());
                c.name = BW_C[c.idx].0;
                c.shapes = vec![x; 4];
            }
            2 => {
                c.idx = pickn(r, BW_AB.len());
                c.name = BW_AB[c.idx].0;
                let b = gen::mate_batch(r, x.b);
                let y = x.with_b(b);
                let z = elementwise(&x, &y).unwrap();
                c.shapes = vec![x, y, z, z, if c.idx % 2 == 0 { x } else { y }];
            }
            3 => {
                c.idx = pickn(r, 2);
                c.name = BW_MM[c.idx].0;
                let (p, q, s) = (r.range(1, 6) as u32, r.range(1, 6) as u32, r.range(1, 6) as u32);
                let b = gen::mate_batch(r, x.b);
                let (m, n) = (Sh::new(&[p, q], x.b), Sh::new(&[q, s], b));
                let z = Sh::new(&[p, s], x.b.max(b));
                c.shapes = vec![m, n, z, z, if c.idx == 0 { m } else { n }];
            }
            4 => {
                c.idx = pickn(r, 2);
                c.name = BW_DIM[c.idx].0;
                let y = x.with(d, 1);
                c.shapes = vec![x, y, y, x];
                c.u = vec![d];
            }
            5 => {
                c.idx = pickn(r, 2);
                c.name = BW_TRI[c.idx].0;
                let p = r.range(1, 6) as u32;
                let m = Sh::new(&[p, p], x.b);
                c.shapes = vec![m; 4];
                c.u = vec![r.below(8) as u32];
            }
            6 => {
                c.name = "transpose_bw";
                let (p, q) = (r.range(1, 6) as u32, r.range(1, 6) as u32);
                let (m, t) = (Sh::new(&[p, q], x.b), Sh::new(&[q, p], x.b));
                c.shapes = vec![m, t, t, m];
            }
            7 => {
                c.name = "powi_bw";
                c.shapes = vec![x; 4];
                c.u = vec![r.below(5) as u32];
            }
            8 => {
                c.name = "slice_bw";
                let l = r.below(x.at(d) as u64) as u32;
                let n = r.range(1, (x.at(d) - l) as i64) as u32;
                c.shapes = vec![x.with(d, n), x];
                c.u = vec![d, l];
            }
            9 => {
                c.name = "pick_bw";
                let n = if x.b > 1 { *r.pick(&[1, x.b]) } else { r.range(1, 4) as u32 };
                let ids: Vec<u32> = (0..n).map(|_| r.below(x.at(d) as u64) as u32).collect();
                c.shapes = vec![pick(&x, &ids, d).unwrap(), x];
                c.u = vec![d];
                c.u.extend(&ids);
            }
            10 => {
                c.name = "batch_slice_bw";
                let l = r.below(x.b as u64) as u32;
                let n = r.range(1, (x.b - l) as i64) as u32;
                c.shapes = vec![x.with_b(n), x];
                c.u = vec![l];
            }
            11 => {
                c.name = "batch_pick_bw";
                c.u = (0..r.range(1, 5)).map(|_| r.below(x.b as u64) as u32).collect();
                c.shapes = vec![x.with_b(c.u.len() as u32), x];
            }
            12 => {
                c.idx = pickn(r, 2);
                c.name = ["add_assign", "sub_assign"][c.idx];
                let b = gen::mate_batch(r, x.b);
                c.shapes = vec![x.with_b(b), x];
            }
            13 => {
                c.idx = pickn(r, FW_AB.len());
                c.name = FW_AB[c.idx].0;
                let b = gen::mate_batch(r, x.b);
                c.shapes = vec![x, x.with_b(b)];
                c.writes = false;
            }
            14 => {
                c.idx = pickn(r, FW_SC.len());
                c.name = FW_SC[c.idx].0;
                let b = gen::mate_batch(r, x.b);
                c.shapes = vec![x, Sh::new(&[], b)];
                c.writes = false;
            }
            15 => {
                c.idx = pickn(r, 3);
                c.name = ["reset_tensor", "reset_tensor_by_slice", "mul_assign_const"][c.idx];
                c.shapes = vec![x];
                c.u = vec![x.n() as u32];
            }
            _ => {
                c.name = "reset_tensor_by_tensor";
                c.shapes = vec![gen::same_size(r, x.size()), x];
            }
        }
        c
    }
    fn mutate(&mut self, r: &mut Rng) {
        if !self.u.is_empty() && r.chance(0.4) {
            match self.group {
                9 => {
                    let mut ids = self.u.split_off(1);
                    if r.chance(0.4) {
                        self.u[0] = any_dim(r)
                    } else {
                        gen::mutate_ids(r, &mut ids)
                    }
                    self.u.extend(&ids);
                }
                11 => gen::mutate_ids(r, &mut self.u),
                4 => self.u[0] = any_dim(r),
                8 if r.chance(0.4) => self.u[0] = any_dim(r),
                15 => self.u[0] = near(r, self.u[0]) % 500,
                _ => {
                    let k = self.u.len() - 1;
                    self.u[k] = near(r, self.u[k])
                }
            }
        } else {
            let k = r.us(self.shapes.len());
            self.shapes[k] = gen::mutate_shape(r, self.shapes[k]);
        }
    }
    /// Whether the shapes and numbers fit together.
    fn valid(&self) -> bool {
        let s = &self.shapes;
        match self.group {
            0 | 1 | 7 => s[0] == s[1] && s[1] == s[2] && s[2] == s[3],
            2 => elementwise(&s[0], &s[1]) == Some(s[2]) && s[2] == s[3] && s[4] == s[self.idx % 2],
            3 => Op::Matmul.infer(&s[..2]).map(|v| v[0]) == Some(s[2]) && s[2] == s[3] && s[4] == s[self.idx % 2],
            4 => self.u[0] < 8 && s[0].with(self.u[0], 1) == s[1] && s[1] == s[2] && s[0] == s[3],
            5 => s[0].is_matrix() && s[0].at(0) == s[0].at(1) && s[0] == s[1] && s[1] == s[2] && s[2] == s[3],
            6 => s[0].is_matrix() && s[1] == Sh::new(&[s[0].at(1), s[0].at(0)], s[0].b) && s[1] == s[2] && s[0] == s[3],
            8 => {
                let (d, l) = (self.u[0], self.u[1]);
                let gy = s[0];
                slice(&s[1], d, l, l as u64 + gy.at(d) as u64) == Some(gy)
            }
            9 => pick(&s[1], &self.u[1..], self.u[0]) == Some(s[0]),
            10 => {
                let (x, gy) = (s[1], s[0]);
                self.u[0] as u64 + gy.b as u64 <= x.b as u64 && x.with_b(gy.b) == gy
            }
            11 => !self.u.is_empty() && self.u.iter().all(|i| *i < s[1].b) && s[1].with_b(self.u.len() as u32) == s[0],
            12 | 13 => s[0].same_dims(&s[1]) && s[0].compat(&s[1]),
            14 => s[1].is_scalar() && s[0].compat(&s[1]),
            15 => self.idx != 1 || self.u[0] as u64 == s[0].size(),
            _ => s[0].size() == s[1].size(),
        }
    }
    /// Along a dimension that shapes do not have, refusing and doing nothing are both fine.
    fn free(&self) -> bool {
        matches!(self.group, 4 | 8 | 9) && self.u[0] >= 8
    }
    fn call(&self, d: &D, t: &[&T], g: Option<&mut T>) -> Vec<f32> {
        let u = &self.u;
        let mut none = vec![];
        match (self.group, g) {
            (0, Some(g)) => BW_X[self.idx].1(d, t[0], t[1], t[2], g),
            (1, Some(g)) => BW_C[self.idx].1(d, t[0], t[1], t[2], self.k, g),
            (2, Some(g)) => BW_AB[self.idx].1(d, t[0], t[1], t[2], t[3], g),
            (3, Some(g)) => BW_MM[self.idx].1(d, t[0], t[1], t[2], t[3], g),
            (4, Some(g)) => BW_DIM[self.idx].1(d, t[0], t[1], t[2], u[0], g),
            (5, Some(g)) => BW_TRI[self.idx].1(d, t[0], t[1], t[2], u[0], g),
            (6, Some(g)) => d.transpose_bw(t[0], t[1], t[2], g),
            (7, Some(g)) => d.powi_bw(t[0], t[1], t[2], u[0] as i32 - 2, g),
            (8, Some(g)) => d.slice_bw(t[0], u[0], u[1], g),
            (9, Some(g)) => d.pick_bw(t[0], &u[1..], u[0], g),
            (10, Some(g)) => d.batch_slice_bw(t[0], u[0], g),
            (11, Some(g)) => d.batch_pick_bw(t[0], u, g),
            (12, Some(g)) if self.idx == 0 => d.add_assign(t[0], g),
            (12, Some(g)) => d.sub_assign(t[0], g),
            (13, None) => none = FW_AB[self.idx].1(d, t[0], t[1]).to_vec(),
            (14, None) => none = FW_SC[self.idx].1(d, t[0], t[1]).to_vec(),
            (15, Some(g)) => match self.idx {
                0 => d.reset_tensor(g, self.k),
                1 => d.reset_tensor_by_slice(g, &vec![self.k; u[0] as usize]),
                _ => d.mul_assign_const(self.k, g),
            },
            (16, Some(g)) => d.reset_tensor_by_tensor(g, t[0]),
            _ => hcore::harness_error!("no such call"),
        }
        none
    }
}

/// One call of a function of a device, with operands that need not fit.
fn direct(st: &(Dev, Dev), r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let mut c = Call::make(r, max);
    let broken = r.chance(0.6);
    if broken {
        for _ in 0..r.range(1, 2) {
            c.mutate(r);
        }
    }
    if c.shapes.iter().any(|s| s.size() > 20_000) {
        return Ok(());
    }
    let n = c.shapes.len();
    let wrong = if r.chance(0.08) { r.us(n) } else { 99 };
    let empty = if r.chance(0.06) { r.us(n) } else { 99 };
    let device_wrong = r.chance(0.03) && wrong == 99;
    let mut ts: Vec<T> = c
        .shapes
        .iter()
        .enumerate()
        .map(|(i, s)| {
            if i == empty {
                (if i == wrong { st.1 } else { st.0 }).new_tensor(s.real())
            } else {
                let v: Vec<f32> = (0..s.n()).map(|_| r.range(1, 5) as f32).collect();
                tensor(if i == wrong { st.1 } else { st.0 }, *s, &v)
            }
        })
        .collect();
    // some operands are the same tensor
    let alias = c.writes && n > 3 && r.chance(0.1) && c.shapes[0] == c.shapes[2];
    let mut g = if c.writes { ts.pop() } else { None };
    let ok = c.valid() && wrong == 99 && empty == 99 && !device_wrong;
    let res = {
        let mut refs: Vec<&T> = ts.iter().collect();
        if alias {
            refs[2] = refs[0];
        }
        let d = if device_wrong { st.1 } else { st.0 };
        catch(|| c.call(d, &refs, g.as_mut()))
    };
    let ok = ok && !(alias && (wrong == 0 || empty == 0));
    let what = || format!("{} of {:?} {:?} (wrong device: {} {}, unallocated: {})", c.name, c.shapes, c.u, wrong as i64, device_wrong, empty as i64);
    // (a kernel need not look at every operand)
    if alias && (wrong == 2 || empty == 2) || c.free() || (empty != 99 && c.valid() && wrong == 99) {
        rep.count("direct_unknown");
    } else if ok {
        ensure!(res.is_ok(), "{} panicked: {}", what(), res.err().unwrap());
        rep.count("direct_accepted");
        rep.count(&format!("ok_{}", c.name));
    } else {
        ensure!(res.is_err(), "{} was not refused", what());
        rep.count("direct_refused");
    }
    if let Some(g) = &g {
        if g.valid() {
            let _ = g.to_vec();
        }
    }
    rep.distinct(&what());
    rep.sample(|| format!("{} -> {}", what(), if res.is_ok() { "done" } else { "panic" }));
    Ok(())
}

/// Graph nodes over tensors and parameters, handles dropped in any order, evaluation and gradients in
/// between, refused operations caught, borrowed values alive.
fn graph(st: &(Dev, Dev), r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let mut ps: Vec<Parameter<'static>> = (0..2)
        .map(|_| {
            let s = gen::shape(r, max).with_b(1);
            let v: Vec<f32> = (0..s.n()).map(|_| r.uni(0.5, 2.) as f32).collect();
            Parameter::new(tensor(st.0, s, &v), tensor(st.0, s, &vec![0.; s.n()]))
        })
        .collect();
    let inputs: Vec<T> = (0..2)
        .map(|_| {
            let s = gen::shape(r, max);
            tensor(st.0, s, &vec![1.5; s.n()])
        })
        .collect();
    let foreign = tensor(st.1, Sh::new(&[2], 1), &[1., 2.]);
    let mut log = 0u64;
    {
        let mut it = ps.iter_mut();
        let mut ns: Vec<Node> = vec![
            Node::from(it.next().unwrap()),
            Node::from(it.next().unwrap()),
            Node::from(&inputs[0]),
            Node::from(&inputs[1]),
            Node::from(&foreign),
        ];
        let steps = r.range(3, 25);
        for _ in 0..steps {
            let k = r.us(ns.len());
            match r.us(8) {
                0..=3 => {
                    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().filter(|k| *k != "KPow").collect();
                    let kind = *r.pick(&all);
                    let (mut op, shapes) = gen::op(r, kind, 30);
                    if r.chance(0.2) {
                        gen::mutate_args(r, &mut op);
                    }
                    let args: Vec<usize> = shapes.iter().map(|_| r.us(ns.len())).collect();
                    let got: Vec<Sh> = args.iter().map(|i| Sh::of(ns[*i].shape())).collect();
                    let big = op.infer(&got).map_or(false, |v| v.iter().map(|s| s.size()).sum::<u64>() > 3000);
                    if big || matches!(op, Op::Broadcast(_, n) if n > 1000) {
                        continue;
                    }
                    let style = r.us(4) as u32;
                    let refs: Vec<&Node> = args.iter().map(|i| &ns[*i]).collect();
                    let y = catch(|| lazy(&op, &refs, style));
                    if let Ok(mut y) = y {
                        r.shuffle(&mut y);
                        if r.chance(0.3) {
                            y.truncate(1);
                        }
                        log = log.wrapping_mul(31) ^ hash_of(&kind);
                        ns.extend(y);
                        rep.count("node_operations");
                    } else {
                        rep.count("node_refusals");
                    }
                }
                4 => {
                    // evaluation may panic: the device of the foreign tensor, unregistered kernels
                    let n = &ns[k];
                    if catch(|| n.to_vec()).is_err() {
                        rep.count("evaluations_panicked");
                    }
                }
                5 => {
                    let n = &ns[k];
                    if catch(|| n.backward()).is_err() {
                        rep.count("backward_panicked");
                    } else {
                        rep.count("backwards");
                    }
                    let g = catch(|| n.inner_gradient().to_vec());
                    if let Ok(g) = g {
                        log ^= g.len() as u64;
                    }
                }
                6 => {
                    // a borrowed value while more is built
                    let n = &ns[k];
                    let v = n.inner_value();
                    let more = catch(|| {
                        let m = n + 1.;
                        m.to_vec()
                    });
                    log ^= more.is_ok() as u64;
                    if v.valid() {
                        let _ = v.to_vec();
                    }
                }
                _ => {
                    if ns.len() > 2 {
                        drop(ns.swap_remove(k));
                    }
                }
            }
        }
        r.shuffle(&mut ns);
        while let Some(n) = ns.pop() {
            drop(n);
        }
    }
    for p in &ps {
        let g = p.gradient.to_vec();
        ensure!(g.len() == p.shape().size() as usize, "gradient of {} elements", g.len());
    }
    for x in &inputs {
        let v = x.to_vec();
        ensure!(v.iter().all(|v| *v == 1.5), "an input changed to {:?}", v);
    }
    rep.distinct(&log);
    Ok(())
}

/// Buffers appear in any state; pools of several devices die in any order.
fn lifetimes(r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    use prima_undine::devices::Naive;
    let n = r.range(1, 3) as usize;
    let mut devs: Vec<Dev> = (0..n).map(|_| &*Box::leak(Box::new(Naive::new()))).collect();
    let mut d = Digest::default();
    for _ in 0..r.range(1, 4) {
        let (a, b) = (*r.pick(&devs), *r.pick(&devs));
        let w = work::any(r);
        let mut quiet = Rep::default();
        let _ = catch(|| work::work(w, a, b, r, &mut quiet, max));
        d.n(w as u64);
    }
    // tensors in threads
    if r.chance(0.3) {
        let dev = devs[0];
        let s = gen::shape(r, max);
        let t = tensor(dev, s, &vec![2.; s.n()]);
        let views: Vec<Vec<f32>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|i| {
                    let t = &t;
                    sc.spawn(move || {
                        let v = Tensor::from(t);
                        let y = &v + (i as f32);
                        let z = dev.copy_tensor(&y);
                        drop(y);
                        z.to_vec()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, v) in views.iter().enumerate() {
            ensure!(v.iter().all(|x| *x == 2. + i as f32), "thread {} computed {:?}", i, v);
        }
        rep.count("threads");
    }
    while !devs.is_empty() {
        let k = r.us(devs.len());
        let d = devs.swap_remove(k);
        // nothing refers to the device any more
        unsafe { drop(Box::from_raw(d as *const D as *mut D)) };
    }
    rep.count("devices_dropped");
    rep.distinct(&(d.0, n));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    if cfg.mode != "pool" {
        Device::verif_set_exact_buffers(true);
    }
    let k = match cfg.mode.as_str() {
        "pool" => 0.2,
        "msan" => 0.2,
        _ => 1.,
    };
    let q = |a: u64, b: u64| cfg.q((a as f64 * k) as u64, (b as f64 * k) as u64);
    // buffers come uninitialised for the memory sanitizer
    let msan = cfg.mode == "msan";
    let st = || {
        if msan {
            let h = Arc::new(Uninit);
            (interp::leak(interp::device(h.clone())), interp::leak(interp::device(h)))
        } else {
            (naive(), naive())
        }
    };
    cfg.stage("device", q(300_000, 8_000_000), 8., st, |s, r, rep| hcore::single::device_fw(s.0, s.1, r, rep, 80));
    cfg.stage("direct", q(2_000_000, 40_000_000), 12., st, |s, r, rep| direct(s, r, rep, 60));
    cfg.stage("direct_large", q(60_000, 1_000_000), 5., st, |s, r, rep| direct(s, r, rep, 3000));
    cfg.stage("hostile", q(300_000, 6_000_000), 12., st, |s, r, rep| {
        let mut d = Digest::default();
        let max = *r.pick(&[8u64, 40, 200, 1500]);
        work::hostile(s.0, s.1, r, &mut d, max);
        rep.distinct(&d.0);
        Ok(())
    });
    cfg.stage("graphs", q(100_000, 2_000_000), 12., st, |s, r, rep| graph(s, r, rep, 30));
    cfg.stage("worlds", q(100_000, 2_000_000), 8., st, |s, r, rep| {
        let mut w = World::new(&[s.0, s.1], false, 40);
        for _ in 0..r.range(5, 40) {
            w.step(r, rep)?;
        }
        rep.distinct(&w.log.join(";"));
        Ok(())
    });
    cfg.stage("workloads", q(100_000, 2_000_000), 12., st, |s, r, rep| {
        let w = *r.pick(&[Work::Lazy, Work::Eager, Work::Training, Work::Saving, Work::Random]);
        let max = *r.pick(&[10u64, 60, 400]);
        let d = work::work(w, s.0, s.1, r, rep, max)?;
        rep.distinct(&(w as u8, d));
        Ok(())
    });
    cfg.stage("lifetimes", q(40_000, 800_000), 8., || (), |_, r, rep| lifetimes(r, rep, 60));
    cfg.finish(
        "random calls of device functions, operations, graphs, in-place histories, training, saving and device lifetimes, valid and invalid, run with buffers of exactly the requested size that are freed at once, under the sanitizer; calls of device functions must panic exactly when operands do not fit; distinct by call or history",
        &["functions handing out raw buffers (handle, new_handle, drop_handle) and unchecked kernel calls (call_*_impl) are not part of the safe interface meant here"],
    )
}
