//! C27: kernels called by name on tensors of the caller, and the registry of a device.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::refm::*;
use hcore::single::{cotangent, directional};
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::devices::Naive;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Tensor};
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

struct Call {
    base: &'static str,
    order: Vec<usize>,
    u: Vec<u32>,
    f: Vec<f32>,
}

/// The kernel of an operation, the order of its operands and its arguments.
fn kernel(op: &Op, s: &[Sh], r: &mut Rng) -> Option<Call> {
    use Op::*;
    let c = |base: &'static str, u: &[u32], f: &[f32]| Some(Call { base, order: (0..s.len()).collect(), u: u.to_vec(), f: f.to_vec() });
    let mut two = |same: &'static str, left: &'static str, right: &'static str| {
        // a kernel for equal dimensions, and kernels whose second operand is the scalar
        if s[0].same_dims(&s[1]) && (!s[0].is_scalar() || r.chance(0.5)) {
            c(same, &[], &[])
        } else if s[1].is_scalar() && (!s[0].is_scalar() || r.chance(0.5)) {
            c(right, &[], &[])
        } else {
            Some(Call { base: left, order: vec![1, 0], u: vec![], f: vec![] })
        }
    };
    match op {
        Add => two("add", "add_scalar", "add_scalar"),
        Sub => two("sub", "sub_scalar_l", "sub_scalar_r"),
        Mul => two("mul", "mul_scalar", "mul_scalar"),
        Div => two("div", "div_scalar_l", "div_scalar_r"),
        Pow => two("powf", "powf_scalar_l", "powf_scalar_r"),
        AddK(k) | KAdd(k) => c("add_const", &[], &[*k]),
        MulK(k) | KMul(k) => c("mul_const", &[], &[*k]),
        KSub(k) => c("sub_const_l", &[], &[*k]),
        SubK(k) => c("sub_const_r", &[], &[*k]),
        KDiv(k) => c("div_const_l", &[], &[*k]),
        DivK(k) => c("div_const_r", &[], &[*k]),
        KPow(k) => c("powf_const_l", &[], &[*k]),
        PowK(k) => c("powf_const_r", &[], &[*k]),
        Neg => c("neg", &[], &[]),
        Sqrt => c("sqrt", &[], &[]),
        Abs => c("abs", &[], &[]),
        Powi(k) => c("powi", &[*k as u32], &[]),
        Sin => c("sin", &[], &[]),
        Cos => c("cos", &[], &[]),
        Tan => c("tan", &[], &[]),
        Exp => c("exp", &[], &[]),
        Ln => c("ln", &[], &[]),
        Tanh => c("tanh", &[], &[]),
        Sigmoid => c("sigmoid", &[], &[]),
        Softplus => c("softplus", &[], &[]),
        Sum(d) => c("sum", &[*d], &[]),
        Lse(d) => c("logsumexp", &[*d], &[]),
        Max(d) => c("max", &[*d], &[]),
        Min(d) => c("min", &[*d], &[]),
        Broadcast(d, n) => c("broadcast", &[*d, *n], &[]),
        Matmul => c("matmul", &[], &[]),
        Transpose => c("transpose", &[], &[]),
        TriL(k) => c("triangular_l", &[*k], &[]),
        TriU(k) => c("triangular_u", &[*k], &[]),
        Prelu(k) => c("prelu", &[], &[*k]),
        Elu(k) => c("elu", &[], &[*k]),
        Slice(d, lo, _) => c("slice", &[*d, *lo], &[]),
        Pick(ids, d) => c("pick", &[&[*d], ids.as_slice()].concat(), &[]),
        Concat(d) => c("concat", &[*d], &[]),
        BatchConcat => c("batch_concat", &[], &[]),
        BatchSum => c("batch_sum", &[], &[]),
        BatchSlice(lo, hi) => c("batch_slice", &[*lo, *hi], &[]),
        BatchPick(ids) => c("batch_pick", ids, &[]),
        _ => None,
    }
}

/// Backward kernels by operation.
fn backward_of(base: &str) -> &'static [&'static str] {
    match base {
        "add" | "sub" | "mul" | "div" | "powf" | "matmul" => &["_bw_a_impl", "_bw_b_impl"],
        "add_const" | "mul_const" | "sub_const_l" | "sub_const_r" | "div_const_l" | "div_const_r" | "powf_const_l" | "powf_const_r" | "neg" | "sqrt" | "abs" | "powi" | "sin"
        | "cos" | "tan" | "exp" | "ln" | "tanh" | "sigmoid" | "max" | "min" | "transpose" | "triangular_l" | "triangular_u" | "prelu" | "elu" | "slice" | "pick"
        | "batch_slice" | "batch_pick" => &["_bw_impl"],
        _ => &[],
    }
}

/// A destination that holds something already.
fn dirty(dev: Dev, r: &mut Rng, s: Sh) -> Tensor<'static> {
    if r.chance(0.5) {
        let k = *r.pick(&[f32::NAN, f32::INFINITY, 1e30, -7., 0.]);
        return dev.new_tensor_by_constant(s.real(), k);
    }
    // what an earlier use may have left: zeros among anything else
    let zeros = *r.pick(&[0.1, 0.5, 0.9]);
    let v: Vec<f32> = (0..s.n()).map(|_| if r.chance(zeros) { 0. } else { *r.pick(&[f32::NAN, f32::INFINITY, 1e30, -7., 1., 0.5]) }).collect();
    tensor(dev, s, &v)
}

/// Operands as tensors or as views of them.
fn with<T>(xs: &[Tensor<'static>], view: bool, f: impl FnOnce(&[&Tensor]) -> T) -> T {
    if view {
        let vs: Vec<Tensor> = xs.iter().map(Tensor::from).collect();
        let r: Vec<&Tensor> = vs.iter().collect();
        f(&r)
    } else {
        let r: Vec<&Tensor> = xs.iter().collect();
        f(&r)
    }
}

fn forward(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str], max: u64) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let (op, shapes) = gen::op(r, kind, max);
    let call = match kernel(&op, &shapes, r) {
        Some(c) => c,
        None => return Ok(()),
    };
    let data = gen::values(r, &op, &shapes, Vals::Plain);
    let want_shape = op.infer(&shapes).unwrap()[0];
    let xs: Vec<Tensor> = call.order.iter().map(|&i| tensor(dev, shapes[i], &data[i])).collect();
    let mut y = dirty(dev, r, want_shape);
    let name = format!("{}_fw_impl", call.base);
    let view = r.chance(0.3);
    let what = || format!("{} for {:?} on {:?} {:?} {:?} (views {})", name, op, call.order.iter().map(|&i| shapes[i]).collect::<Vec<_>>(), call.u, call.f, view);
    catch(|| with(&xs, view, |x| dev.call_fw_impl(&name, x, &call.u, &call.f, &mut [&mut y]))).map_err(|m| format!("{} panicked: {}", what(), m))?;
    let rt: Vec<RT<Ev>> = shapes.iter().zip(&data).map(|(s, d)| RT::from_f32(*s, d)).collect();
    let rr: Vec<&RT<Ev>> = rt.iter().collect();
    let want = op.eval(&rr);
    let got = y.to_vec();
    check::close(&got, &want[0]).map_err(|m| format!("{}: {}; inputs {:?}", what(), m, data))?;
    ensure!(Sh::of(y.shape()) == want_shape, "{} changed the shape of the destination", what());
    for (t, &i) in xs.iter().zip(&call.order) {
        ensure!(check::same_bits(&t.to_vec(), &data[i]), "{} changed operand {}", what(), i);
    }
    rep.add("elements_compared", got.len() as u64);
    rep.count(&format!("kernel_{}", name));
    rep.distinct(&(name.clone(), shapes.clone(), call.u.clone()));
    rep.sample(|| what());
    Ok(())
}

fn backward(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str], max: u64) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let (op, shapes) = gen::op(r, kind, max);
    let call = match kernel(&op, &shapes, r) {
        Some(c) => c,
        None => return Ok(()),
    };
    let sfx = backward_of(call.base);
    if sfx.is_empty() {
        return Ok(());
    }
    let at = r.us(sfx.len());
    let name = format!("{}{}", call.base, sfx[at]);
    let linear = matches!(call.base, "slice" | "pick" | "batch_slice" | "batch_pick");
    let data = gen::values(r, &op, &shapes, Vals::Smooth);
    let o = op.infer(&shapes).unwrap()[0];
    let w = vec![cotangent(r, o.n())];
    let start: Vec<f32> = (0..shapes[at].n()).map(|_| r.range(-4, 4) as f32).collect();
    let base: usize = shapes[..at].iter().map(|s| s.n()).sum();
    let mut dirs: Vec<usize> = (base..base + shapes[at].n()).collect();
    if dirs.len() > 64 * 8 {
        r.shuffle(&mut dirs);
        dirs.truncate(64);
    }
    take_kink();
    let want = directional(&op, &shapes, &data, &w, &dirs);
    if take_kink() {
        rep.count("skipped_not_differentiable");
        return Ok(());
    }
    let xs: Vec<Tensor> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let y = eager(&op, &refs, 0);
    let ybits = y[0].to_vec();
    let gy = vec![tensor(dev, o, &w[0])];
    let mut gx = tensor(dev, shapes[at], &start);
    let u: Vec<u32> = if call.base == "batch_slice" { call.u[..1].to_vec() } else { call.u.clone() };
    let view = r.chance(0.3);
    let what = || format!("{} for {:?} on {:?} {:?} {:?} (views {})", name, op, shapes, u, call.f, view);
    catch(|| {
        with(&xs, view, |x| {
            with(&gy, view, |g| {
                if linear {
                    dev.call_bw_impl(&name, &[], &[], g, &u, &call.f, &mut gx)
                } else {
                    dev.call_bw_impl(&name, x, &[&y[0]], g, &u, &call.f, &mut gx)
                }
            })
        })
    })
    .map_err(|m| format!("{} panicked: {}", what(), m))?;
    let got = gx.to_vec();
    let rel = if let Op::Powi(k) = op { 1e-5 + 2.5 * U * (k as f64).abs() } else { 1e-5 };
    for (dir, g, a, round) in want {
        let i = dir - base;
        let tol = (rel + round) * a + 1e-6 * (start[i].abs() as f64 + g.abs());
        let e = start[i] as f64 + g;
        ensure!((got[i] as f64 - e).abs() <= tol, "{} made element {} of the gradient {} from {}, expected {} (tolerance {:e}); inputs {:?} incoming {:?}", what(), i, got[i], start[i], e, tol, data, w);
        rep.count("derivatives_compared");
    }
    for (t, d) in xs.iter().zip(&data) {
        ensure!(check::same_bits(&t.to_vec(), d), "{} changed an operand", what());
    }
    ensure!(check::same_bits(&gy[0].to_vec(), &w[0]) && check::same_bits(&y[0].to_vec(), &ybits), "{} changed the result or its gradient", what());
    rep.count(&format!("kernel_{}", name));
    rep.distinct(&(name.clone(), shapes.clone(), u.clone()));
    rep.sample(|| what());
    Ok(())
}

/// Kernels no operation uses, and those behind in-place work and queries.
fn moves(dev: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let s = gen::shape(r, max);
    let v: Vec<f32> = (0..s.n()).map(|_| if r.chance(0.9) { r.uni(-9., 9.) as f32 } else { *r.pick(&[f32::INFINITY, -0., 1e-40, f32::MAX]) }).collect();
    let x = tensor(dev, s, &v);
    let ints: Vec<f32> = (0..s.n()).map(|_| r.range(-99, 99) as f32).collect();
    let view = r.chance(0.3);
    // destination element of each element of x
    let which = r.us(7);
    let (base, u, t, pos): (&str, Vec<u32>, Sh, Vec<usize>) = match which {
        0 | 1 => {
            // permutations, also of extents of one beyond the depth
            let n = r.range(s.depth() as i64, 8) as usize;
            let mut p: Vec<u32> = (0..n as u32).collect();
            if r.chance(0.9) {
                r.shuffle(&mut p);
            }
            let dims: Vec<u32> = p.iter().map(|&d| s.at(d)).collect();
            let t = Sh::new(&dims, s.b);
            let mut pos = vec![0; s.n()];
            s.each(|c, b| {
                let mut k = [0u32; MD];
                for (i, &d) in p.iter().enumerate() {
                    k[i] = c[d as usize];
                }
                pos[s.index(c, b)] = t.index(&k, b);
            });
            ("permute_dims", p, t, pos)
        }
        2 | 3 => {
            let d = r.below(8) as u32;
            let mut pos = vec![0; s.n()];
            s.each(|c, b| {
                let mut k = *c;
                k[d as usize] = s.at(d) - 1 - c[d as usize];
                pos[s.index(c, b)] = s.index(&k, b);
            });
            ("flip", vec![d], s, pos)
        }
        4 => {
            let n = gen::tail(r, 1, 60) as u32;
            let mut y = dirty(dev, r, Sh::new(&[n, n], 1));
            dev.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut y]);
            let e: Vec<f32> = (0..n * n).map(|i| (i % (n + 1) == 0) as u32 as f32).collect();
            ensure!(y.to_vec() == e, "identity_impl made {:?} of size {}", y.to_vec(), n);
            rep.count("identity_impl");
            return Ok(());
        }
        5 => {
            // index kernels into a vector that holds something already
            let d = r.below(8) as u32;
            let n = s.n() / s.at(d) as usize;
            let pool: Vec<f32> = (0..s.n()).map(|_| r.range(-5, 5) as f32).collect();
            let x = [tensor(dev, s, &pool)];
            let junk = r.next() as u32;
            let line = |i: usize| {
                let low: usize = (0..d).map(|k| s.at(k) as usize).product();
                let at = i % low + i / low * low * s.at(d) as usize;
                (0..s.at(d) as usize).map(|j| at + j * low).collect::<Vec<_>>()
            };
            for base in ["argmax_impl", "argmin_impl", "argsort_impl"] {
                let sort = base == "argsort_impl";
                let mut o = vec![junk; if sort { s.n() } else { n }];
                catch(|| with(&x, view, |x| dev.call_fw_u32_impl(base, x, &[d], &[], &mut o))).map_err(|m| format!("{} of {:?} along {} panicked: {}", base, s, d, m))?;
                for i in 0..n {
                    let l = line(i);
                    let vals: Vec<f32> = l.iter().map(|&k| pool[k]).collect();
                    let ok = if sort {
                        let o: Vec<usize> = l.iter().map(|&k| o[k] as usize).collect();
                        let mut p = o.clone();
                        p.sort_unstable();
                        p == l && o.windows(2).all(|w| pool[w[0]] <= pool[w[1]])
                    } else {
                        let best = vals.iter().copied().fold(vals[0], if base == "argmax_impl" { f32::max } else { f32::min });
                        vals.iter().position(|&q| q == best) == Some(o[i] as usize)
                    };
                    ensure!(ok, "{} of {:?} along {} into a vector full of {}: line {} {:?} gave {:?}", base, s, d, junk, i, vals, o);
                }
                rep.count(&format!("kernel_{}", base));
            }
            return Ok(());
        }
        _ => {
            // assignments
            let k = r.uni(-3., 3.) as f32;
            let mut y = dirty(dev, r, s);
            dev.call_fw_impl("reset_tensor_impl", &[], &[], &[k], &mut [&mut y]);
            ensure!(y.to_vec() == vec![k; s.n()], "reset_tensor_impl on {:?} with {}: {:?}", s, k, y.to_vec());
            let mut y = dirty(dev, r, s);
            dev.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], &v, &mut [&mut y]);
            ensure!(check::same_bits(&y.to_vec(), &v), "reset_tensor_by_slice_impl on {:?} with {:?}: {:?}", s, v, y.to_vec());
            let mut y = dirty(dev, r, s);
            dev.call_fw_impl("reset_tensor_by_tensor_impl", &[&x], &[], &[], &mut [&mut y]);
            ensure!(check::same_bits(&y.to_vec(), &v), "reset_tensor_by_tensor_impl on {:?} with {:?}: {:?}", s, v, y.to_vec());
            let mut y = tensor(dev, s, &ints);
            dev.call_fw_impl("mul_assign_const_impl", &[], &[], &[3.], &mut [&mut y]);
            ensure!(y.to_vec() == ints.iter().map(|i| 3. * i).collect::<Vec<_>>(), "mul_assign_const_impl on {:?}", s);
            let (a, b) = (r.chance(0.5), r.chance(0.5));
            let (xs, ys) = (if a { s.with_b(1) } else { s }, if b { s.with_b(1) } else { s });
            let z: Vec<f32> = (0..xs.n()).map(|_| r.range(-99, 99) as f32).collect();
            let src = tensor(dev, xs, &z);
            let plus = r.chance(0.5);
            let mut y = tensor(dev, ys, &ints[..ys.n()]);
            dev.call_fw_impl(if plus { "add_assign_impl" } else { "sub_assign_impl" }, &[&src], &[], &[], &mut [&mut y]);
            let mut e = ints[..ys.n()].to_vec();
            let vol = s.vol() as usize;
            for i in 0..vol * xs.b.max(ys.b) as usize {
                let q = z[if a { i % vol } else { i % xs.n() }];
                let n = ys.n();
                e[i % n] += if plus { q } else { -q };
            }
            ensure!(y.to_vec() == e, "{} of {:?} to {:?} gives {:?} instead of {:?}", if plus { "add_assign_impl" } else { "sub_assign_impl" }, xs, ys, y.to_vec(), e);
            let mut o = vec![7.; s.n()];
            dev.call_fw_f32_impl("tensor_to_vector_impl", &[&x], &[], &[], &mut o);
            ensure!(check::same_bits(&o, &v), "tensor_to_vector_impl of {:?}: {:?}", v, o);
            rep.count("assignments");
            return Ok(());
        }
    };
    let what = || format!("{} with {:?} on {:?} (view {})", base, u, s, view);
    let mut y = dirty(dev, r, t);
    let xs = [x];
    catch(|| with(&xs, view, |x| dev.call_fw_impl(&format!("{}_fw_impl", base), x, &u, &[], &mut [&mut y]))).map_err(|m| format!("{} panicked: {}", what(), m))?;
    let mut e = vec![0.; s.n()];
    for i in 0..s.n() {
        e[pos[i]] = v[i];
    }
    ensure!(check::same_bits(&y.to_vec(), &e), "{}: {:?} became {:?} instead of {:?}", what(), v, y.to_vec(), e);
    ensure!(check::same_bits(&xs[0].to_vec(), &v), "{} changed its operand", what());
    // backward
    let g: Vec<f32> = (0..s.n()).map(|_| r.range(-99, 99) as f32).collect();
    let gy = tensor(dev, t, &g);
    let mut gx = tensor(dev, s, &ints);
    catch(|| dev.call_bw_impl(&format!("{}_bw_impl", base), &[&xs[0]], &[&y], &[&gy], &u, &[], &mut gx)).map_err(|m| format!("backward of {} panicked: {}", what(), m))?;
    let e: Vec<f32> = (0..s.n()).map(|i| ints[i] + g[pos[i]]).collect();
    ensure!(gx.to_vec() == e, "backward of {}: {:?} and incoming {:?} became {:?} instead of {:?}", what(), ints, g, gx.to_vec(), e);
    rep.count(&format!("{}_fw_impl", base));
    rep.count(&format!("{}_bw_impl", base));
    rep.distinct(&(base, u.clone(), s));
    rep.sample(|| what());
    Ok(())
}

// ---- the registry

struct NoMem;
impl DeviceImpl for NoMem {
    fn identifier(&self) -> String {
        "a device of mine".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        Naive {}.new_handle(size)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        Naive {}.drop_handle(h)
    }
}
type Seen = (usize, Vec<usize>, Vec<u32>, Vec<u32>);
#[derive(Clone)]
struct Probe {
    id: usize,
    log: Arc<Mutex<Vec<Seen>>>,
}
fn addr(t: &Tensor) -> usize {
    t.handle().load(Ordering::SeqCst) as usize
}
impl Probe {
    fn note(&self, ts: Vec<usize>, u: &[u32], f: &[f32]) {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push((self.id, ts, u.to_vec(), f.iter().map(|x| x.to_bits()).collect()));
    }
}
impl FunctionFwImpl for Probe {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.note(xs.iter().map(|x| addr(x)).chain(ys.iter().map(|y| addr(y))).collect(), u, f)
    }
}
impl FunctionFwU32Impl for Probe {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        ys.iter_mut().enumerate().for_each(|(i, y)| *y = (self.id + i) as u32);
        self.note(xs.iter().map(|x| addr(x)).chain([ys.len()]).collect(), u, f)
    }
}
impl FunctionFwF32Impl for Probe {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        ys.iter_mut().enumerate().for_each(|(i, y)| *y = (self.id + i) as f32);
        self.note(xs.iter().map(|x| addr(x)).chain([ys.len()]).collect(), u, f)
    }
}
impl FunctionBwImpl for Probe {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.note(xs.iter().chain(ys).chain(gys).map(|x| addr(x)).chain([xs.len(), ys.len(), gys.len(), addr(gx)]).collect(), u, f)
    }
}

const NAMES: &[&str] = &["k", "add_fw_impl", "add", "add_fw_imp", "add_bw_a_impl", "", "my kernel", "größe", "ADD_FW_IMPL", "argmax_impl", "add_fw", "add_impl", "k_impl", "k_fw_impl", "k_fw", "_impl", "add_fw_impl ", "add_fw_impl2", "argmax", "add_bw_a"];

fn registry(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let log: Arc<Mutex<Vec<Seen>>> = Arc::default();
    // a device from scratch, or the built-in one with replaced and added kernels
    let scratch = r.chance(0.6);
    let mut d: Device<'static> = if scratch { Device::new(NoMem) } else { Naive::new() };
    let mut last: Vec<Vec<Option<usize>>> = vec![vec![None; NAMES.len()]; 4];
    let mut steps = vec![];
    for id in 0..r.range(1, 12) as usize {
        let (kind, n) = (r.us(4), r.us(NAMES.len()));
        let p = Probe { id, log: log.clone() };
        match kind {
            0 => d.register_fw_impl(NAMES[n], p),
            1 => d.register_fw_u32_impl(NAMES[n], p),
            2 => d.register_fw_f32_impl(NAMES[n], p),
            _ => d.register_bw_impl(NAMES[n], p),
        }
        steps.push((kind, NAMES[n], id));
        last[kind][n] = Some(id);
    }
    if scratch {
        ensure!(d.identifier() == "a device of mine", "the identifier reads {:?}", d.identifier());
    }
    let builtin = if scratch { None } else { Some(Naive::new().verif_kernel_names()) };
    let dev = leak(d);
    {
        let make = |r: &mut Rng| {
            let mut t = dev.new_tensor(gen::shape(r, 20).real());
            t.alloc();
            t
        };
        for _ in 0..12 {
            let (kind, n) = (r.us(4), r.us(NAMES.len()));
            if last[kind][n].is_none() && builtin.as_ref().map_or(false, |b| b[kind].iter().any(|x| x == NAMES[n])) {
                continue; // a built-in kernel would look at the tensors
            }
            let xs: Vec<Tensor> = (0..r.us(4)).map(|_| make(r)).collect();
            let ys: Vec<Tensor> = (0..r.us(3)).map(|_| make(r)).collect();
            let gs: Vec<Tensor> = (0..r.us(3)).map(|_| make(r)).collect();
            let source = make(r);
            let mut view = Tensor::from(&source);
            let mut y1 = make(r);
            let mut y2 = make(r);
            let u: Vec<u32> = (0..r.us(5)).map(|_| r.next() as u32).collect();
            let f: Vec<f32> = (0..r.us(5)).map(|_| f32::from_bits(r.next() as u32)).collect();
            let fb: Vec<u32> = f.iter().map(|x| x.to_bits()).collect();
            let x: Vec<&Tensor> = xs.iter().collect();
            let xa: Vec<usize> = xs.iter().map(addr).collect();
            log.lock().unwrap_or_else(|e| e.into_inner()).clear();
            let refuse = (kind == 0 || kind == 3) && r.chance(0.15);
            let what = format!("{} kernel {:?} with {} operands after registering {:?}", ["forward", "index", "number", "backward"][kind], NAMES[n], xs.len(), steps);
            let mut target = vec![];
            let m = r.us(6);
            let (mut yu, mut yf) = (vec![99u32; m], vec![99f32; m]);
            let res = {
                match kind {
                    0 if refuse => catch(|| dev.call_fw_impl(NAMES[n], &x, &u, &f, &mut [&mut y1, &mut view])),
                    0 => {
                        target = xa.iter().copied().chain([addr(&y1), addr(&y2)]).collect();
                        catch(|| dev.call_fw_impl(NAMES[n], &x, &u, &f, &mut [&mut y1, &mut y2]))
                    }
                    1 => {
                        target = xa.iter().copied().chain([m]).collect();
                        catch(|| dev.call_fw_u32_impl(NAMES[n], &x, &u, &f, &mut yu))
                    }
                    2 => {
                        target = xa.iter().copied().chain([m]).collect();
                        catch(|| dev.call_fw_f32_impl(NAMES[n], &x, &u, &f, &mut yf))
                    }
                    _ => {
                        let (y, g): (Vec<&Tensor>, Vec<&Tensor>) = (ys.iter().collect(), gs.iter().collect());
                        if refuse {
                            catch(|| dev.call_bw_impl(NAMES[n], &x, &y, &g, &u, &f, &mut view))
                        } else {
                            target = xa.iter().copied().chain(ys.iter().map(addr)).chain(gs.iter().map(addr)).chain([xs.len(), ys.len(), gs.len(), addr(&y1)]).collect();
                            catch(|| dev.call_bw_impl(NAMES[n], &x, &y, &g, &u, &f, &mut y1))
                        }
                    }
                }
            };
            let seen = log.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if refuse {
                ensure!(res.is_err() && seen.is_empty(), "{} accepted a view as its destination", what);
                rep.count("view_destinations_refused");
                continue;
            }
            match last[kind][n] {
                None => {
                    ensure!(res.is_err() && seen.is_empty(), "{} was called although there is none: {:?}", what, seen);
                    rep.count("missing_kernels_refused");
                }
                Some(id) => {
                    ensure!(res.is_ok(), "{} panicked: {:?}", what, res);
                    let want: Vec<Seen> = vec![(id, target, u.clone(), fb)];
                    ensure!(seen == want, "{} was seen as {:?} instead of {:?}", what, seen, want);
                    let ok = (kind != 1 || yu.iter().enumerate().all(|(i, y)| *y as usize == id + i)) && (kind != 2 || yf.iter().enumerate().all(|(i, y)| *y as usize == id + i));
                    ensure!(ok, "{} returned {:?} {:?}", what, yu, yf);
                    rep.count("registered_calls_checked");
                }
            }
        }
    }
    unsafe { hcore::interp::unleak(dev) };
    rep.distinct(&steps);
    rep.sample(|| format!("{:?}", steps));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    let all: Vec<&str> = KINDS.to_vec();
    cfg.stage("forward", cfg.q(200_000, 4_000_000), 8., naive, |d, r, rep| forward(*d, r, rep, &all, 60));
    cfg.stage("forward_large", cfg.q(4_000, 100_000), 5., naive, |d, r, rep| forward(*d, r, rep, &all, 20_000));
    cfg.stage("backward", cfg.q(150_000, 3_000_000), 8., naive, |d, r, rep| backward(*d, r, rep, &all, 40));
    cfg.stage("backward_large", cfg.q(3_000, 80_000), 5., naive, |d, r, rep| backward(*d, r, rep, &all, 5_000));
    cfg.stage("moves", cfg.q(150_000, 3_000_000), 5., naive, |d, r, rep| moves(*d, r, rep, 200));
    cfg.stage("moves_large", cfg.q(3_000, 80_000), 4., naive, |d, r, rep| moves(*d, r, rep, 50_000));
    cfg.stage("registry", cfg.q(60_000, 1_000_000), 5., || (), |_, r, rep| registry(r, rep));
    cfg.finish(
        "kernels of the built-in backend called by name with operands (tensors or views), arguments and destinations that fit, destinations of forward kernels full of garbage, gradients preset; values and derivatives against the reference model, moved values bitwise; random registrations and calls of user kernels in all four tables; distinct by kernel, shapes and arguments or by registrations",
        &["operands are passed as the built-in operations pass them", "points near a kink or tie are skipped"],
    )
}
