//! C18: faults at every point of a call; everything else stays as it was.
use hcore::ensure;
use hcore::gen::{self, Vals};
use hcore::interp::{self, Hook};
use hcore::ledger::Ledger;
use hcore::ops::*;
use hcore::optm;
use hcore::prog::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::work;
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions, RandomDeviceFunctions};
use prima_undine::{initializers as I, Device, Initializer, Node, Operator, Parameter, Shape, Tensor};
use std::cell::{Cell, RefCell};
use std::ffi::c_void;
use std::sync::atomic::AtomicPtr;
use std::sync::Arc;

thread_local! {
    /// the fault happens at this event of this thread
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static AFTER: Cell<bool> = const { Cell::new(false) };
    static KIND: Cell<&'static str> = const { Cell::new("") };
}
const BLOWN: &str = "the fuse has blown";

fn tick(kind: &'static str) -> bool {
    EVENTS.with(|e| e.set(e.get() + 1));
    FUSE.with(|f| {
        let k = f.get();
        if k == 0 {
            return false;
        }
        f.set(k - 1);
        if k == 1 {
            KIND.with(|x| x.set(kind));
        }
        k == 1
    })
}
fn after() -> bool {
    AFTER.with(|a| a.get())
}
/// Counts the events of a call.
fn events<T>(f: impl FnOnce() -> T) -> (T, u64) {
    EVENTS.with(|e| e.set(0));
    let y = f();
    (y, EVENTS.with(|e| e.get()))
}
/// A call with a fault at the k-th event. None: the fault happened.
fn burn<T>(k: u64, late: bool, rep: &mut Rep, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    AFTER.with(|a| a.set(late));
    FUSE.with(|f| f.set(k));
    let y = catch(f);
    FUSE.with(|f| f.set(0));
    match y {
        Ok(y) => Ok(Some(y)),
        Err(m) if m.contains(BLOWN) => {
            rep.count(&format!("fault_in_{}{}", KIND.with(|k| k.get()), if late { "_late" } else { "" }));
            Ok(None)
        }
        Err(m) => Err(format!("panicked: {}", m)),
    }
}

struct Faulty(Ledger);
impl Hook for Faulty {
    fn fw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let now = tick("kernel");
        if now && !after() {
            panic!("{}", BLOWN);
        }
        self.0.fw(d, name, xs, u, f, ys);
        if now {
            panic!("{}", BLOWN);
        }
    }
    fn fw_u32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        let now = tick("index_kernel");
        if now && !after() {
            panic!("{}", BLOWN);
        }
        self.0.fw_u32(d, name, xs, u, f, ys);
        if now {
            panic!("{}", BLOWN);
        }
    }
    fn fw_f32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        let now = tick("read");
        if now && !after() {
            panic!("{}", BLOWN);
        }
        self.0.fw_f32(d, name, xs, u, f, ys);
        if now {
            panic!("{}", BLOWN);
        }
    }
    fn bw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        let now = tick("backward_kernel");
        if now && !after() {
            panic!("{}", BLOWN);
        }
        self.0.bw(d, name, xs, ys, gys, u, f, gx);
        if now {
            panic!("{}", BLOWN);
        }
    }
    fn alloc(&self, size: u32) -> AtomicPtr<c_void> {
        if tick("allocation") {
            panic!("{}", BLOWN);
        }
        self.0.alloc(size)
    }
    fn free(&self, h: &AtomicPtr<c_void>) {
        self.0.free(h)
    }
}

/// A user's operator with two outputs.
struct Twice(Dev);
impl<'arg> Operator<'arg, 'static> for Twice {
    fn name(&self) -> String {
        "Twice".to_string()
    }
    fn device(&self) -> &'static Device<'static> {
        self.0
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        if tick("shape_inference") {
            panic!("{}", BLOWN);
        }
        vec![x[0]; 2]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        let p = |e: &'static str| {
            if tick(e) {
                panic!("{}", BLOWN)
            }
        };
        p("operator");
        y[0].alloc();
        self.0.reset_tensor_by_tensor(y[0], x[0]);
        p("operator");
        y[1].alloc();
        p("operator");
        self.0.reset_tensor_by_tensor(y[1], x[0]);
        p("operator");
        *y[1] *= 3.;
        p("operator");
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        let mut g = gx[0].borrow_mut();
        for k in 0..4 {
            if tick("operator_backward") {
                panic!("{}", BLOWN);
            }
            *g += gy[(k + 1) / 2 % 2];
        }
    }
}
struct Sometimes(f32);
impl Initializer for Sometimes {
    fn apply(&self, t: &mut Tensor) {
        if tick("initializer") {
            panic!("{}", BLOWN);
        }
        t.alloc();
        if tick("initializer") {
            panic!("{}", BLOWN);
        }
        t.reset(self.0);
        if tick("initializer") {
            panic!("{}", BLOWN);
        }
    }
}

fn bits(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan())
}

/// A device whose ledger is settled at the end.
struct Bench {
    led: Arc<Faulty>,
    dev: Dev,
}
impl Bench {
    fn new() -> Bench {
        let led = Arc::new(Faulty(Ledger::new(false)));
        Bench { dev: interp::leak(interp::device(led.clone())), led }
    }
    fn finish(self) -> Result<(), String> {
        self.led.0.verdict()?;
        unsafe { interp::unleak(self.dev) };
        self.led.0.verdict()?;
        let b = self.led.0.book();
        ensure!(b.live.is_empty(), "{} of {} buffers were lost", b.live.len(), b.allocs);
        ensure!(b.frees == b.allocs, "{} buffers obtained, {} freed", b.allocs, b.frees);
        Ok(())
    }
}

/// A graph on a device.
struct Side<'a> {
    dev: Dev,
    ps: Vec<*mut Parameter<'static>>,
    inputs: &'a [Tensor<'static>],
    nodes: Vec<Node<'a, 'static>>,
}
struct Store {
    ps: Vec<Option<Box<Parameter<'static>>>>,
    inputs: Vec<Tensor<'static>>,
}
impl Store {
    fn new(dev: Dev, p: &Prog) -> Store {
        Store {
            ps: p
                .leaves
                .iter()
                .map(|l| match l.kind {
                    LeafKind::Param => Some(Box::new(Parameter::new(tensor(dev, l.s, &l.data), tensor(dev, l.s, &vec![0.; l.s.n()])))),
                    _ => None,
                })
                .collect(),
            inputs: (0..p.leaves.len()).map(|k| p.leaf_tensor(dev, k)).collect(),
        }
    }
}
impl<'a> Side<'a> {
    fn new(dev: Dev, p: &Prog, st: &'a mut Store, extra: &[usize]) -> Side<'a> {
        let mut ps: Vec<*mut Parameter<'static>> = st.ps.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| &mut **p as *mut _)).collect();
        let inputs = &st.inputs;
        let mut nodes = p.nodes(|k| match p.leaves[k].kind {
            LeafKind::Param => Node::from(unsafe { &mut *ps[k] }),
            LeafKind::Input => Node::from(&inputs[k]),
            LeafKind::Owned => Node::from(p.leaf_tensor(dev, k)),
        });
        // operators of the user, also on top of each other
        for &e in extra {
            let k = e % nodes.len();
            let y = Node::create(Twice(dev), &[&nodes[k]]);
            nodes.extend(y);
        }
        Side { dev, ps, inputs: &st.inputs, nodes }
    }
    fn gradients(&self) -> Vec<Vec<f32>> {
        self.ps.iter().map(|p| if p.is_null() { vec![] } else { unsafe { (**p).gradient.to_vec() } }).collect()
    }
    fn set_gradients(&self, g: &[Vec<f32>]) {
        for (p, g) in self.ps.iter().zip(g) {
            if !p.is_null() {
                self.dev.reset_tensor_by_slice(unsafe { &mut (**p).gradient }, g);
            }
        }
    }
    fn leaves_intact(&self, p: &Prog) -> Result<(), String> {
        for (k, l) in p.leaves.iter().enumerate() {
            if !self.ps[k].is_null() {
                let v = unsafe { (*self.ps[k]).value.to_vec() };
                ensure!(bits(&v, &l.data), "parameter {} holds {:?} instead of {:?}", k, v, l.data);
            }
            let v = self.inputs[k].to_vec();
            ensure!(bits(&v, &l.data), "input {} holds {:?} instead of {:?}", k, v, l.data);
        }
        Ok(())
    }
    fn inner(&self) -> Vec<Vec<f32>> {
        self.nodes.iter().map(|n| if n.inner_gradient().valid() { n.inner_gradient().to_vec() } else { vec![] }).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Read,
    Forward,
    Backward,
    Refused,
}

/// Evaluations of one graph with faults, against the same graph without.
fn graph(a: Dev, b: Dev, other: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let (p, _) = work::program(r, max);
    let extra: Vec<usize> = if r.chance(0.5) { (0..r.range(1, 3)).map(|_| r.next() as usize >> 8).collect() } else { vec![] };
    let (bp, _) = work::program(r, 20);
    let (mut sa, mut sb, mut sc) = (Store::new(a, &p), Store::new(b, &p), Store::new(a, &bp));
    let x = Side::new(a, &p, &mut sa, &extra);
    let y = Side::new(b, &p, &mut sb, &extra);
    // another graph, half evaluated, with gradients
    let z = Side::new(a, &bp, &mut sc, &[]);
    let zi = r.us(z.nodes.len());
    z.nodes[zi].backward();
    let (zv, zg, zn) = (z.nodes[zi].to_vec(), z.gradients(), z.inner());
    let mut log = vec![];
    for _ in 0..r.range(1, 6) {
        let i = if r.chance(0.6) { x.nodes.len() - 1 - r.us(x.nodes.len().min(3)) } else { r.us(x.nodes.len()) };
        let act = *r.pick(&[Act::Read, Act::Forward, Act::Backward, Act::Backward, Act::Refused]);
        let run = |s: &Side, f: Act| -> Vec<f32> {
            match f {
                Act::Read => s.nodes[i].to_vec(),
                Act::Forward => {
                    s.nodes[i].forward();
                    vec![]
                }
                _ => {
                    s.nodes[i].backward();
                    vec![]
                }
            }
        };
        let before = x.gradients();
        if act == Act::Refused {
            // an operation that cannot be
            let sh = Sh::of(x.nodes[i].shape());
            let bad = Sh { d: { let mut d = sh.d; d[r.us(3)] += 1 + r.below(3) as u32; d }, b: sh.b + if sh.b > 1 { 1 } else { 0 } };
            let (dv, w) = if r.chance(0.7) { (a, bad) } else { (other, sh) };
            let t = dv.new_tensor_by_constant(w.real(), 1.);
            let style = r.below(5);
            let q = catch(|| {
                let n = Node::from(t);
                match style {
                    0 => (&x.nodes[i] + &n).to_vec(),
                    1 => (&n * &x.nodes[i]).to_vec(),
                    2 => x.nodes[i].softmax_cross_entropy(&n, 0).to_vec(),
                    3 => Node::concat(&[&x.nodes[i], &n], 7).to_vec(),
                    _ => {
                        let m = &x.nodes[i] - &n;
                        m.backward();
                        m.to_vec()
                    }
                }
            });
            log.push(format!("refused {} on node {}: {}", style, i, q.is_err()));
            if q.is_ok() {
                x.set_gradients(&before);
            }
            rep.count(if q.is_err() { "refused" } else { "accepted" });
            let g = x.gradients();
            ensure!(g.iter().zip(&before).all(|(a, b)| bits(a, b)), "a refused operation changed gradients from {:?} to {:?}; {:?}", before, g, log);
            x.leaves_intact(&p).map_err(|m| format!("after a refused operation: {}; {:?}", m, log))?;
            continue;
        }
        let (vy, n) = events(|| run(&y, act));
        let mut done = None;
        for _ in 0..r.range(0, 3) {
            let k = 1 + r.below(n + 1);
            let late = r.chance(0.4);
            log.push(format!("{:?} of node {} with a fault at {}{}", act, i, k, if late { " late" } else { "" }));
            let e = burn(k, late, rep, || run(&x, act)).map_err(|m| format!("{}; {:?}; {:?}", m, log, p.kinds()))?;
            // everything else
            x.leaves_intact(&p).map_err(|m| format!("{}; {:?}; {:?}", m, log, p.kinds()))?;
            z.leaves_intact(&bp).map_err(|m| format!("another graph: {}; {:?}", m, log))?;
            let w = z.nodes[zi].to_vec();
            ensure!(bits(&w, &zv), "a node of another graph holds {:?} instead of {:?}; {:?}", w, zv, log);
            ensure!(z.gradients() == zg || z.gradients().iter().zip(&zg).all(|(a, b)| bits(a, b)), "gradients of another graph changed; {:?}", log);
            ensure!(z.inner().iter().zip(&zn).all(|(a, b)| bits(a, b)), "node gradients of another graph changed; {:?}", log);
            if e.is_some() {
                done = e;
                break;
            }
            if act != Act::Backward {
                let g = x.gradients();
                ensure!(g.iter().zip(&before).all(|(a, b)| bits(a, b)), "a failed evaluation changed gradients from {:?} to {:?}; {:?}", before, g, log);
            } else {
                x.set_gradients(&before);
            }
            rep.count("failed_evaluations");
        }
        let vx = match done {
            Some(v) => v,
            None => {
                log.push(format!("{:?} of node {}", act, i));
                catch(|| run(&x, act)).map_err(|m| format!("trying again panicked: {}; {:?}; {:?}", m, log, p.kinds()))?
            }
        };
        ensure!(bits(&vx, &vy), "after failures node {} is {:?} instead of {:?}; {:?}; {:?}", i, vx, vy, log, p.kinds());
        if act == Act::Backward {
            let (gx, gy) = (x.gradients(), y.gradients());
            ensure!(gx.iter().zip(&gy).all(|(a, b)| bits(a, b)), "after failures the gradients are {:?} instead of {:?}; {:?}; {:?}", gx, gy, log, p.kinds());
            // (contributed functions do not always use all of their arguments)
            let (gx, gy) = (x.inner(), y.inner());
            let known = i < p.vars.len() && !p.kinds().iter().any(|k| CONTRIB_KINDS.contains(&k.as_str()));
            let deps = if known { p.deps(i) } else { vec![] };
            for k in 0..deps.len() {
                ensure!(!deps[k] || bits(&gx[k], &gy[k]), "after failures the gradient of node {} is {:?} instead of {:?}; {:?}; {:?}", k, gx[k], gy[k], log, p.kinds());
            }
        }
        rep.count("evaluations_compared");
    }
    rep.distinct(&(p.signature(), log.clone()));
    rep.sample(|| format!("{:?}: {:?}", p.kinds(), log));
    Ok(())
}

/// Calls on tensors with faults, against the same calls without.
fn eager_case(a: Dev, b: Dev, other: Dev, r: &mut Rng, rep: &mut Rep, max: u64) -> Result<(), String> {
    let mut log: Vec<String> = vec![];
    // bystanders: tensors and what they hold
    let mut ts: Vec<(Tensor<'static>, Vec<f32>, Sh)> = vec![];
    for _ in 0..r.range(2, 6) {
        let s = if ts.is_empty() || r.chance(0.5) { gen::shape(r, max) } else { ts[0].2 };
        let v: Vec<f32> = (0..s.n()).map(|_| r.range(-9, 9) as f32).collect();
        ts.push((tensor(a, s, &v), v, s));
    }
    let mut ps: Vec<(Parameter<'static>, Parameter<'static>)> = vec![];
    for _ in 0..r.range(1, 3) {
        let s = gen::shape(r, 30).with_b(1);
        let v: Vec<f32> = (0..s.n()).map(|_| r.range(-9, 9) as f32).collect();
        let g: Vec<f32> = (0..s.n()).map(|_| r.uni(-1., 1.) as f32).collect();
        let mk = |d: Dev| Parameter::new(tensor(d, s, &v), tensor(d, s, &g));
        ps.push((mk(a), mk(b)));
    }
    let seed = r.next();
    let mut oa = optm::make(&mut Rng::new(seed));
    let mut ob = optm::make(&mut Rng::new(seed));
    if r.chance(0.5) {
        for o in [&mut oa, &mut ob] {
            o.o.base().set_weight_decay(0.1);
            o.o.base().set_gradient_clipping(0.5);
        }
    }
    let mut configured = false;
    // a tensor that is being changed
    let mut missing = usize::MAX;
    for _ in 0..r.range(2, 10) {
        let tries = r.range(1, 3);
        let act = r.below(11);
        macro_rules! attempts {
            ($what:expr, $n:expr, $call:expr, $undo:expr) => {{
                let mut done = None;
                for _ in 0..tries {
                    let k = 1 + r.below($n + 1);
                    let late = r.chance(0.4);
                    log.push(format!("{} with a fault at {}{}", $what, k, if late { " late" } else { "" }));
                    let e = burn(k, late, rep, || $call).map_err(|m| format!("{}; {:?}", m, log))?;
                    if let Some(y) = e {
                        done = Some(y);
                        break;
                    }
                    rep.count("failed_calls");
                    $undo;
                    watch(&ts, missing, &log)?;
                }
                match done {
                    Some(y) => y,
                    None => {
                        log.push(format!("{}", $what));
                        catch(|| $call).map_err(|m| format!("trying again panicked: {}; {:?}", m, log))?
                    }
                }
            }};
        }
        match act {
            0..=2 => {
                // any operation
                let kind = *r.pick(KINDS);
                let max = gen::limit(r, max, 40 * max, 0.01);
                let (op, shapes) = gen::op(r, kind, max);
                let data = gen::values(r, &op, &shapes, Vals::Plain);
                let style = r.below(64) as u32;
                let mk = |d: Dev| -> Vec<Tensor<'static>> { shapes.iter().zip(&data).map(|(s, v)| tensor(d, *s, v)).collect() };
                let (xa, xb) = (mk(a), mk(b));
                let call = |x: &[Tensor<'static>]| -> Vec<Vec<f32>> { eager(&op, &x.iter().collect::<Vec<_>>(), style).iter().map(|y| y.to_vec()).collect() };
                let (yb, n) = events(|| call(&xb));
                let ya = attempts!(format!("{:?}", op), n, call(&xa), {
                    for (x, v) in xa.iter().zip(&data) {
                        ensure!(bits(&x.to_vec(), v), "an operand changed to {:?} from {:?}; {:?}", x.to_vec(), v, log);
                    }
                });
                ensure!(ya.len() == yb.len() && ya.iter().zip(&yb).all(|(a, b)| bits(a, b)), "{:?} instead of {:?}; {:?}", ya, yb, log);
                rep.count("operations");
            }
            3 | 4 => {
                // in place
                let i = r.us(ts.len());
                let same: Vec<usize> = (0..ts.len()).filter(|&k| k != i && ts[k].2 == ts[i].2).collect();
                let k = *r.pick(&[-1f32, 2., 0.5, 0.]);
                let style = r.below(3);
                let src = if same.is_empty() { None } else { Some(*r.pick(&same)) };
                if src.is_none() && style < 2 {
                    continue;
                }
                let hole = a.new_tensor(ts[i].2.real());
                let mut t = std::mem::replace(&mut ts[i].0, hole);
                let (v, s) = (ts[i].1.clone(), ts[i].2);
                let want: Vec<f32> = match style {
                    0 => v.iter().zip(&ts[src.unwrap()].1).map(|(x, y)| x + y).collect(),
                    1 => v.iter().zip(&ts[src.unwrap()].1).map(|(x, y)| x - y).collect(),
                    _ => v.iter().map(|x| x * k).collect(),
                };
                {
                    // the placeholder holds nothing
                    missing = i;
                    attempts!(
                        format!("in place {} of t{}", style, i),
                        1,
                        match style {
                            0 => t += &ts[src.unwrap()].0,
                            1 => t -= &ts[src.unwrap()].0,
                            _ => t *= k,
                        },
                        a.reset_tensor_by_slice(&mut t, &v)
                    );
                }
                ensure!(bits(&t.to_vec(), &want) || want.iter().zip(t.to_vec()).all(|(a, b)| *a == b), "{:?} instead of {:?}; {:?}", t.to_vec(), want, log);
                let t2 = tensor(a, s, &v);
                drop(t);
                ts[i].0 = t2;
                missing = usize::MAX;
                rep.count("in_place");
            }
            5 => {
                // new tensors
                let s = gen::shape(r, max);
                let v: Vec<f32> = (0..s.n()).map(|_| r.uni(-9., 9.) as f32).collect();
                let style = r.below(6);
                let k = r.uni(-9., 9.) as f32;
                let src = &ts[0].0;
                let (got, want): (Vec<f32>, Vec<f32>) = match style {
                    0 => (attempts!("new_tensor_by_constant", 3, a.new_tensor_by_constant(s.real(), k).to_vec(), ()), vec![k; s.n()]),
                    1 => (attempts!("new_tensor_by_slice", 3, a.new_tensor_by_slice(s.real(), &v).to_vec(), ()), v.clone()),
                    2 => (attempts!("copy_tensor", 3, a.copy_tensor(src).to_vec(), ()), ts[0].1.clone()),
                    3 => (attempts!("new_parameter", 7, a.new_parameter(s.with_b(1).real(), &Sometimes(k)).value.to_vec(), ()), vec![k; s.with_b(1).n()]),
                    4 => (attempts!("new_parameter", 6, a.new_parameter(s.with_b(1).real(), &I::Constant::new(k)).value.to_vec(), ()), vec![k; s.with_b(1).n()]),
                    _ => (attempts!("copy of a copy", 5, a.copy_tensor(&a.copy_tensor(src)).to_vec(), ()), ts[0].1.clone()),
                };
                ensure!(bits(&got, &want), "{:?} instead of {:?}; {:?}", got, want, log);
                rep.count("creations");
            }
            6 => {
                // random numbers
                let s = gen::shape(r, max);
                let style = r.below(5);
                let got = attempts!(
                    format!("random {}", style),
                    3,
                    match style {
                        0 => a.random_uniform(s.real(), -1., 1.).to_vec(),
                        1 => a.random_normal(s.real(), 0., 1.).to_vec(),
                        2 => a.random_bernoulli(s.real(), 0.5).to_vec(),
                        3 => a.new_parameter(s.with_b(1).real(), &I::Normal::new(0., 1.)).value.to_vec(),
                        _ => a.new_parameter(Shape::new(&[s.at(0), s.at(1)], 1), &I::XavierUniform::new(1.)).value.to_vec(),
                    },
                    ()
                );
                ensure!(got.iter().all(|x| x.abs() < 12.), "random numbers {:?}; {:?}", got, log);
                rep.count("random");
            }
            7 => {
                // reading and saving
                let i = r.us(ts.len());
                let style = r.below(5);
                let (t, v) = (&ts[i].0, &ts[i].1);
                let tb = tensor(b, ts[i].2, v);
                let call = |t: &Tensor<'static>| -> Vec<u8> {
                    match style {
                        0 => t.to_vec().iter().flat_map(|x| x.to_bits().to_le_bytes()).collect(),
                        1 => bincode::serialize(t).unwrap(),
                        2 => serde_json::to_vec(t).unwrap(),
                        3 => t.argmax(0).iter().flat_map(|x| x.to_le_bytes()).collect(),
                        _ => t.argsort(0).iter().flat_map(|x| x.to_le_bytes()).collect(),
                    }
                };
                let want = call(&tb);
                let got = attempts!(format!("reading {} of t{}", style, i), 1, call(t), ());
                ensure!(got == want, "reading {}: {:?} instead of {:?}; {:?}", style, got, want, log);
                rep.count("readings");
            }
            8 => {
                // moving to a device
                let s = gen::shape(r, max);
                let v: Vec<f32> = (0..s.n()).map(|_| r.uni(-9., 9.) as f32).collect();
                let mut t = Tensor::new_host_tensor(s.real(), v.clone());
                let k = 1 + r.below(3);
                log.push(format!("move_to_device with a fault at {}", k));
                let e = burn(k, r.chance(0.4), rep, || t.move_to_device(a)).map_err(|m| format!("{}; {:?}", m, log))?;
                if e.is_some() || !t.valid() {
                    if e.is_none() {
                        catch(|| t.move_to_device(if r.chance(0.5) { a } else { b })).map_err(|m| format!("moving again panicked: {}; {:?}", m, log))?;
                    }
                    ensure!(bits(&t.to_vec(), &v), "the moved tensor holds {:?} instead of {:?}; {:?}", t.to_vec(), v, log);
                }
                rep.count("moves");
            }
            9 => {
                // a step of training; a failed one is repeated from a saved state
                if !configured {
                    let mut rb: Vec<&mut Parameter> = ps.iter_mut().map(|p| &mut p.1).collect();
                    ob.o.configure(&mut rb);
                    attempts!("configuring", 4, { let mut ra: Vec<&mut Parameter> = ps.iter_mut().map(|p| &mut p.0).collect(); oa.o.configure(&mut ra) }, ());
                    configured = true;
                }
                let saved: Vec<Vec<u8>> = ps.iter().map(|p| bincode::serialize(&p.0).unwrap()).collect();
                let epoch = *oa.o.base().epoch();
                let n = {
                    let mut rb: Vec<&mut Parameter> = ps.iter_mut().map(|p| &mut p.1).collect();
                    events(|| ob.o.update(&mut rb)).1
                };
                attempts!("updating", n, { let mut ra: Vec<&mut Parameter> = ps.iter_mut().map(|p| &mut p.0).collect(); oa.o.update(&mut ra) }, {
                    for (p, s) in ps.iter_mut().zip(&saved) {
                        ensure!(p.0.shape() == p.1.shape() && p.0.value.valid() && p.0.gradient.valid(), "a parameter was lost; {:?}", log);
                        let _ = (p.0.value.to_vec(), p.0.gradient.to_vec());
                        p.0 = bincode::deserialize(s).map_err(|e| format!("{}; {:?}", e, log))?;
                        p.0.move_to_device(a);
                    }
                    let now = *oa.o.base().epoch();
                    ensure!(now == epoch || now == epoch + 1, "the step counter went from {} to {}; {:?}", epoch, now, log);
                    *oa.o.base().epoch() = epoch;
                });
                for (k, p) in ps.iter_mut().enumerate() {
                    ensure!(bits(&p.0.value.to_vec(), &p.1.value.to_vec()), "parameter {} is {:?} instead of {:?}; {:?}", k, p.0.value.to_vec(), p.1.value.to_vec(), log);
                    for (n, s) in &p.1.stats {
                        let q = p.0.stats.get(n).map(|q| q.borrow().to_vec());
                        ensure!(q.as_ref().map_or(false, |q| bits(q, &s.borrow().to_vec())), "statistics {} of parameter {} are {:?} instead of {:?}; {:?}", n, k, q, s.borrow().to_vec(), log);
                    }
                    let g: Vec<f32> = (0..p.0.shape().size()).map(|_| r.uni(-1., 1.) as f32).collect();
                    a.reset_tensor_by_slice(&mut p.0.gradient, &g);
                    b.reset_tensor_by_slice(&mut p.1.gradient, &g);
                }
                rep.count("training_steps");
            }
            _ => {
                let mut d = work::Digest::default();
                work::hostile(a, other, r, &mut d, max);
                log.push("a hostile call".to_string());
                rep.count("hostile");
            }
        }
        watch(&ts, missing, &log)?;
    }
    rep.distinct(&log);
    rep.sample(|| log.join("; "));
    Ok(())
}
fn watch(ts: &[(Tensor<'static>, Vec<f32>, Sh)], but: usize, log: &[String]) -> Result<(), String> {
    for (i, (t, v, s)) in ts.iter().enumerate() {
        if i == but {
            continue;
        }
        ensure!(t.shape() == s.real() && t.valid(), "t{} has become {:?}; {:?}", i, t.shape(), log);
        let w = catch(|| t.to_vec()).map_err(|m| format!("reading t{} panicked: {}; {:?}", i, m, log))?;
        ensure!(bits(&w, v), "t{} holds {:?} instead of {:?}; {:?}", i, w, v, log);
    }
    Ok(())
}

/// Workloads after failed calls give what they give on a fresh device.
fn later(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let (x, y, z) = (Bench::new(), Bench::new(), Bench::new());
    let mut done = vec![];
    for _ in 0..r.range(1, 4) {
        for _ in 0..r.range(0, 3) {
            let mut f = r.fork();
            if r.chance(0.5) {
                graph(x.dev, y.dev, z.dev, &mut f, rep, 60)?;
            } else {
                eager_case(x.dev, y.dev, z.dev, &mut f, rep, 60)?;
            }
            done.push("faults".to_string());
        }
        // a whole workload that breaks off
        if r.chance(0.6) {
            let w = work::any(r);
            let k = 1 + r.below(80);
            let mut f = r.fork();
            let late = r.chance(0.3);
            AFTER.with(|a| a.set(late));
            FUSE.with(|f| f.set(k));
            let _ = catch(|| work::work(w, x.dev, z.dev, &mut f, rep, 60));
            FUSE.with(|f| f.set(0));
            done.push(format!("{:?} with a fault at {}", w, k));
            rep.count("broken_workloads");
        }
        let w = work::any(r);
        done.push(format!("{:?}", w));
        let seed = r.next();
        let run = |d: &Bench, rep: &mut Rep| catch(|| work::work(w, d.dev, z.dev, &mut Rng::new(seed), rep, 60));
        let (p, q) = (run(&x, rep), run(&y, rep));
        match (&p, &q) {
            (Ok(Ok(p)), Ok(Ok(q))) => ensure!(p == q, "{:?}: the last workload gave other results than without the failed calls", done),
            _ => return Err(format!("{:?}: {:?}; without the failed calls {:?}", done, p, q)),
        }
        rep.count("later_workloads");
    }
    x.finish().map_err(|m| format!("{}; {:?}", m, done))?;
    y.finish().map_err(|m| format!("{}; {:?}", m, done))?;
    z.finish().map_err(|m| format!("{}; {:?}", m, done))
}

/// Another thread works on the same device all the while.
fn threads(r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let (x, y, z) = (Bench::new(), Bench::new(), Bench::new());
    let jobs: Vec<(work::Work, u64)> = (0..r.range(2, 8)).map(|_| (work::any(r), r.next())).collect();
    let want: Vec<Result<u64, String>> = jobs.iter().map(|(w, s)| work::work(*w, y.dev, z.dev, &mut Rng::new(*s), rep, 60)).collect();
    let mut f = r.fork();
    let (mut ra, mut rb) = (Rep::default(), Rep::default());
    let n = r.range(2, 6);
    let (e1, e2) = std::thread::scope(|sc| {
        let h1 = sc.spawn(|| -> Result<(), String> {
            for _ in 0..n {
                if f.chance(0.5) {
                    graph(x.dev, y.dev, z.dev, &mut f, &mut ra, 40)?;
                } else {
                    eager_case(x.dev, y.dev, z.dev, &mut f, &mut ra, 40)?;
                }
            }
            Ok(())
        });
        let h2 = sc.spawn(|| -> Result<(), String> {
            for ((w, s), want) in jobs.iter().zip(&want) {
                let got = catch(|| work::work(*w, x.dev, z.dev, &mut Rng::new(*s), &mut rb, 60));
                let ok = match (&got, want) {
                    (Ok(Ok(a)), Ok(b)) => a == b,
                    _ => false,
                };
                ensure!(ok, "{:?} while another thread's calls fail: {:?}, alone {:?}", w, got, want);
            }
            Ok(())
        });
        (h1.join().unwrap(), h2.join().unwrap())
    });
    e1.and(e2)?;
    rep.add("faults_beside_another_thread", ra.counters.get("failed_evaluations").unwrap_or(&0) + ra.counters.get("failed_calls").unwrap_or(&0));
    rep.add("workloads_beside_faults", jobs.len() as u64);
    x.finish()?;
    y.finish()?;
    z.finish()
}

/// A backend without one of the kernels.
fn missing(names: &Vec<String>, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let skip = r.pick(names).clone();
    let led = Arc::new(Faulty(Ledger::new(false)));
    let a: Dev = interp::leak(interp::device_without(led.clone(), &[&skip]));
    let bench = Bench { led, dev: a };
    let y = Bench::new();
    {
        let (p, _) = work::program(r, 40);
        let inputs = |d: Dev| -> Vec<Result<Tensor<'static>, String>> { (0..p.leaves.len()).map(|k| catch(|| p.leaf_tensor(d, k))).collect() };
        let xa = inputs(a);
        if xa.iter().all(|x| x.is_ok()) {
            let xa: Vec<Tensor> = xa.into_iter().map(|x| x.unwrap()).collect();
            let xb: Vec<Tensor> = inputs(y.dev).into_iter().map(|x| x.unwrap()).collect();
            let na = match catch(|| p.nodes(|k| Node::from(&xa[k]))) {
                Ok(n) => n,
                Err(_) => {
                    rep.count("graph_refused_without_a_kernel");
                    vec![]
                }
            };
            let nb = p.nodes(|k| Node::from(&xb[k]));
            let mut bad = vec![false; na.len()];
            for _ in 0..if na.is_empty() { 0 } else { r.range(3, 12) } {
                let i = r.us(na.len());
                match catch(|| na[i].to_vec()) {
                    Ok(v) => {
                        ensure!(!bad[i] || skip.starts_with("tensor_to"), "node {} was refused before and is calculated now, without {}", i, skip);
                        ensure!(bits(&v, &nb[i].to_vec()), "without {} node {} is {:?} instead of {:?}", skip, i, v, nb[i].to_vec());
                        rep.count("evaluated_without_a_kernel");
                        // everything it depends on is fine
                        let d = p.deps(i);
                        for k in 0..na.len() {
                            ensure!(!(d[k] && bad[k]), "node {} was calculated from node {}, which was refused; without {}", i, k, skip);
                        }
                    }
                    Err(_) => {
                        bad[i] = true;
                        rep.count("refused_without_a_kernel");
                    }
                }
            }
            for (k, x) in xa.iter().enumerate() {
                if skip.starts_with("tensor_to") {
                    break;
                }
                ensure!(bits(&x.to_vec(), &p.leaves[k].data), "without {} input {} changed", skip, k);
            }
        }
    }
    rep.distinct(&(skip, r.next()));
    bench.finish()?;
    y.finish()
}

fn main() {
    let cfg = Cfg::from_args();
    let benches = || (Bench::new(), Bench::new(), Bench::new());
    cfg.stage("graphs", cfg.q(40_000, 900_000), 10., benches, |(x, y, z), r, rep| {
        graph(x.dev, y.dev, z.dev, r, rep, 40)?;
        x.led.0.verdict()
    });
    cfg.stage("fresh", cfg.q(6_000, 120_000), 7., || (), |_, r, rep| {
        // every buffer comes from the backend
        let (x, y, z) = (Bench::new(), Bench::new(), Bench::new());
        graph(x.dev, y.dev, z.dev, r, rep, 60)?;
        eager_case(x.dev, y.dev, z.dev, r, rep, 60)?;
        x.finish()?;
        y.finish()?;
        z.finish()
    });
    cfg.stage("calls", cfg.q(40_000, 900_000), 10., benches, |(x, y, z), r, rep| {
        eager_case(x.dev, y.dev, z.dev, r, rep, 60)?;
        x.led.0.verdict()
    });
    cfg.stage("later", cfg.q(4_000, 90_000), 8., || (), |_, r, rep| later(r, rep));
    cfg.stage("threads", cfg.q(1_500, 40_000), 6., || (), |_, r, rep| threads(r, rep));
    let names: Vec<String> = naive().verif_kernel_names().concat();
    cfg.stage("missing", cfg.q(4_000, 80_000), 5., || (), |_, r, rep| missing(&names, r, rep));
    cfg.finish(
        "evaluations, calls on tensors, creations, readings, moves, training steps and whole workloads interrupted by a panic at a random event (before or after a kernel, at an allocation, inside a user's operator or initializer, refused arguments, a missing kernel): everything else against its value before, the repeated call and all later work against an undisturbed device, other threads beside it, and the ledger of buffers at the end",
        &["what the failing call was writing (its destination, parameter gradients of a failed backward, parameters of a failed training step) is restored by the harness before the call is repeated"],
    )
}
