//! C06: evaluation order and multiplicity, observed by operators that log their calls.
use hcore::ensure;
use hcore::interp::{self, Hook};
use hcore::ops::*;
use hcore::prog::*;
use hcore::refm::*;
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Operator, Shape, Tensor};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// What is known of an operation: its inputs as (operation, output) and the shapes of its outputs.
struct Info {
    args: Vec<(usize, usize)>,
    outs: Vec<Sh>,
    depends: BTreeSet<usize>,
}

#[derive(Default)]
struct Log {
    ops: Vec<Info>,
    done: BTreeSet<usize>,
    /// operations that may run in the current call
    may_fw: BTreeSet<usize>,
    may_bw: BTreeSet<usize>,
    ran_fw: Vec<usize>,
    ran_bw: Vec<usize>,
    /// gradients of the current pass by (operation, output)
    grad: BTreeMap<(usize, usize), Vec<i64>>,
    /// the operation that fails in the current call, after storing so many outputs
    fails: Option<(usize, usize, bool)>,
    bad: Option<String>,
}
impl Log {
    fn fail(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(m);
        }
    }
}

fn mark(id: usize, out: usize, k: usize) -> f32 {
    ((id * 8 + out) * 8 + k) as f32
}

/// What a failed evaluation has left behind is not there any more.
fn ensure_empty(l: &mut Log, id: usize, out: usize, y: &Tensor) {
    if y.valid() {
        l.fail(format!("output {} of operation {} already has a value when it is run", out, id));
    }
}

fn vec_of(t: &Tensor) -> Vec<f32> {
    t.device().tensor_to_vector(t)
}

struct LogOp {
    dev: Dev,
    id: usize,
    log: Rc<RefCell<Log>>,
}
impl LogOp {
    /// Contribution to element `i` of argument `k` for the gradients of the outputs.
    fn contribution(id: usize, k: usize, i: usize, gy: &[Vec<i64>]) -> i64 {
        let mut s = (id % 5) as i64;
        for (j, g) in gy.iter().enumerate() {
            for (e, g) in g.iter().enumerate() {
                s += g * ((1 + k + 3 * j + 5 * e + i) as i64 % 13);
            }
        }
        s.rem_euclid(97) - 40
    }
}
impl<'arg> Operator<'arg, 'static> for LogOp {
    fn name(&self) -> String {
        format!("Log{}", self.id)
    }
    fn device(&self) -> &'static Device<'static> {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        let mut l = self.log.borrow_mut();
        let want: Vec<Shape> = l.ops[self.id].args.iter().map(|&(o, k)| l.ops[o].outs[k].real()).collect();
        if want != x {
            l.fail(format!("operation {} was created with shapes {:?} instead of {:?}", self.id, x, want));
        }
        l.ops[self.id].outs.iter().map(|s| s.real()).collect()
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        let mut l = self.log.borrow_mut();
        let id = self.id;
        if !l.may_fw.contains(&id) {
            l.fail(format!("operation {} was run but is not needed", id));
        }
        if l.done.contains(&id) {
            l.fail(format!("operation {} was run again", id));
        }
        if !l.ran_bw.is_empty() {
            l.fail(format!("operation {} was run after the backward pass began", id));
        }
        let args = l.ops[id].args.clone();
        if args.len() != x.len() {
            l.fail(format!("operation {} got {} inputs instead of {}", id, x.len(), args.len()));
        }
        for (k, (&(o, j), x)) in args.iter().zip(x).enumerate() {
            if !l.done.contains(&o) {
                l.fail(format!("operation {} was run before operation {} that makes its input {}", id, o, k));
            } else {
                let want: Vec<f32> = (0..l.ops[o].outs[j].n()).map(|e| mark(o, j, e)).collect();
                let got = vec_of(x);
                if got != want {
                    l.fail(format!("input {} of operation {} holds {:?} instead of output {} of operation {}: {:?}", k, id, got, j, o, want));
                }
            }
        }
        let outs = l.ops[id].outs.clone();
        if outs.len() != y.len() {
            l.fail(format!("operation {} got {} outputs instead of {}", id, y.len(), outs.len()));
        }
        let fails = l.fails.filter(|f| f.0 == id && f.2).map(|f| f.1);
        for (j, y) in y.iter_mut().enumerate() {
            if fails == Some(j) {
                break;
            }
            let n = outs[j].n();
            ensure_empty(&mut l, id, j, y);
            y.alloc();
            let v: Vec<f32> = (0..n).map(|e| mark(id, j, e)).collect();
            self.dev.reset_tensor_by_slice(y, &v);
        }
        if fails.is_some() {
            drop(l);
            panic!("operation {} fails", id);
        }
        l.done.insert(id);
        l.ran_fw.push(id);
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        let mut l = self.log.borrow_mut();
        let id = self.id;
        if !l.may_bw.contains(&id) {
            l.fail(format!("backward visited operation {} the start does not depend on", id));
        }
        if l.ran_bw.contains(&id) {
            l.fail(format!("backward visited operation {} twice", id));
        }
        let args = l.ops[id].args.clone();
        let outs = l.ops[id].outs.clone();
        if x.len() != args.len() || gx.len() != args.len() || y.len() != outs.len() || gy.len() != outs.len() {
            l.fail(format!("operation {} got {} {} {} {} tensors for backward", id, x.len(), y.len(), gy.len(), gx.len()));
            return;
        }
        for c in l.may_bw.clone() {
            if l.ops[c].args.iter().any(|&(o, _)| o == id) && !l.ran_bw.contains(&c) {
                l.fail(format!("backward visited operation {} before its consumer {}", id, c));
            }
        }
        for (k, (&(o, j), x)) in args.iter().zip(x).enumerate() {
            let want: Vec<f32> = (0..l.ops[o].outs[j].n()).map(|e| mark(o, j, e)).collect();
            if vec_of(x) != want {
                l.fail(format!("backward of operation {}: input {} holds {:?} instead of {:?}", id, k, vec_of(x), want));
            }
        }
        for (j, y) in y.iter().enumerate() {
            let want: Vec<f32> = (0..outs[j].n()).map(|e| mark(id, j, e)).collect();
            if vec_of(y) != want {
                l.fail(format!("backward of operation {}: output {} holds {:?} instead of {:?}", id, j, vec_of(y), want));
            }
        }
        let fails = l.fails.filter(|f| f.0 == id && !f.2).map(|f| f.1);
        let mut g: Vec<Vec<i64>> = vec![];
        for (j, gy) in gy.iter().enumerate() {
            let zero = vec![0; outs[j].n()];
            let want = l.grad.get(&(id, j)).cloned().unwrap_or(zero);
            let got: Vec<i64> = vec_of(gy).iter().map(|&v| v as i64).collect();
            if got != want {
                l.fail(format!("gradient of output {} of operation {} is {:?} when it is visited, its consumers contributed {:?}", j, id, got, want));
            }
            g.push(want);
        }
        for (k, &(o, j)) in args.iter().enumerate() {
            if fails == Some(k) {
                drop(l);
                panic!("operation {} fails", id);
            }
            let n = l.ops[o].outs[j].n();
            let add: Vec<i64> = (0..n).map(|i| LogOp::contribution(id, k, i, &g)).collect();
            let e = l.grad.entry((o, j)).or_insert_with(|| vec![0; n]);
            for (e, a) in e.iter_mut().zip(&add) {
                *e += a;
            }
            let v: Vec<f32> = add.iter().map(|&a| a as f32).collect();
            let t = self.dev.new_tensor_by_slice(l.ops[o].outs[j].real(), &v);
            *gx[k].borrow_mut() += &t;
        }
        l.ran_bw.push(id);
    }
}

struct World {
    dev: Dev,
    log: Rc<RefCell<Log>>,
    /// live handles: (operation, output, node)
    nodes: Vec<(usize, usize, Node<'static, 'static>)>,
}
impl World {
    fn create(&mut self, r: &mut Rng, nargs: usize) -> Result<(), String> {
        let nargs = if self.nodes.is_empty() { 0 } else { nargs };
        // mostly recent ones, sometimes the same one twice
        let n = self.nodes.len();
        let recent = r.chance(0.6);
        let pick: Vec<usize> = (0..nargs).map(|_| if recent { n - 1 - r.us(n.min(4)) } else { r.us(n) }).collect();
        let id = {
            let mut l = self.log.borrow_mut();
            let id = l.ops.len();
            let args: Vec<(usize, usize)> = pick.iter().map(|&i| (self.nodes[i].0, self.nodes[i].1)).collect();
            let mut depends = BTreeSet::new();
            for (o, _) in &args {
                depends.extend(l.ops[*o].depends.iter().copied());
            }
            depends.insert(id);
            let nouts = if r.chance(0.7) { 1 } else { r.range(1, 3) as usize };
            let outs = (0..nouts)
                .map(|_| match r.us(4) {
                    0 => Sh::scalar(),
                    1 => Sh::new(&[2], 1),
                    2 => Sh::new(&[1, 2], 2),
                    _ => Sh::new(&[], 3),
                })
                .collect();
            l.ops.push(Info { args, outs, depends });
            l.may_fw.clear();
            l.may_bw.clear();
            l.ran_fw.clear();
            l.ran_bw.clear();
            id
        };
        let made = {
            let xs: Vec<&Node<'static, 'static>> = pick.iter().map(|&i| &self.nodes[i].2).collect();
            Node::create(LogOp { dev: self.dev, id, log: self.log.clone() }, &xs)
        };
        let l = self.log.borrow();
        ensure!(l.ran_fw.is_empty() && l.ran_bw.is_empty(), "creating an operation ran {:?} {:?}", l.ran_fw, l.ran_bw);
        ensure!(made.len() == l.ops[id].outs.len(), "operation {} has {} outputs instead of {}", id, made.len(), l.ops[id].outs.len());
        for (j, n) in made.into_iter().enumerate() {
            ensure!(n.shape() == l.ops[id].outs[j].real(), "output {} of {} has shape {:?}", j, id, n.shape());
            self.nodes.push((id, j, n));
        }
        Ok(())
    }

    fn query(&mut self, r: &mut Rng, at: usize, rep: &mut Rep) -> Result<(), String> {
        let (id, out) = (self.nodes[at].0, self.nodes[at].1);
        let need: BTreeSet<usize> = {
            let mut l = self.log.borrow_mut();
            let need: BTreeSet<usize> = l.ops[id].depends.difference(&l.done).copied().collect();
            l.may_fw = need.clone();
            l.may_bw.clear();
            l.ran_fw.clear();
            l.ran_bw.clear();
            need
        };
        let node = &self.nodes[at].2;
        let s = self.log.borrow().ops[id].outs[out];
        let want: Vec<f32> = (0..s.n()).map(|e| mark(id, out, e)).collect();
        let q = r.us(6);
        match q {
            0 => node.forward(),
            1 | 2 => ensure!(node.to_vec() == want, "output {} of operation {} is {:?} instead of {:?}", out, id, node.to_vec(), want),
            3 => {
                node.argmax(0);
            }
            4 => {
                node.argmin(1);
            }
            _ => {
                if s.size() == 1 {
                    ensure!(node.to_float() == want[0], "output {} of operation {} is {:?} instead of {:?}", out, id, node.to_float(), want);
                } else {
                    node.argsort(0);
                }
            }
        }
        let l = self.log.borrow();
        if let Some(m) = &l.bad {
            return Err(m.clone());
        }
        let ran: BTreeSet<usize> = l.ran_fw.iter().copied().collect();
        ensure!(ran == need, "evaluating operation {} ran {:?} instead of {:?}", id, l.ran_fw, need);
        ensure!(l.ran_bw.is_empty(), "an evaluation ran backward operations");
        rep.add("forward_calls", l.ran_fw.len() as u64);
        rep.count(if need.is_empty() { "queries_of_evaluated" } else { "queries_with_evaluation" });
        Ok(())
    }

    /// An operation that is needed fails: the ones before it have been evaluated, it and the ones
    /// that need it have not.
    fn failing(&mut self, r: &mut Rng, at: usize, rep: &mut Rep) -> Result<(), String> {
        let (id, out) = (self.nodes[at].0, self.nodes[at].1);
        let back = r.chance(0.4);
        let (need, victim, fw) = {
            let mut l = self.log.borrow_mut();
            let all = l.ops[id].depends.clone();
            let need: BTreeSet<usize> = all.difference(&l.done).copied().collect();
            let fw = !back || (!need.is_empty() && r.chance(0.4));
            let from: Vec<usize> = if fw { need.iter().copied().collect() } else { all.iter().copied().filter(|&o| !l.ops[o].args.is_empty()).collect() };
            if from.is_empty() {
                return Ok(());
            }
            let victim = *r.pick(&from);
            let k = r.us(if fw { l.ops[victim].outs.len() + 1 } else { l.ops[victim].args.len() });
            l.fails = Some((victim, k, fw));
            if fw && k == l.ops[victim].outs.len() {
                // after all of them
                l.fails = Some((victim, 99, fw));
            }
            l.may_fw = need.clone();
            l.may_bw = if back { all.clone() } else { BTreeSet::new() };
            l.ran_fw.clear();
            l.ran_bw.clear();
            l.grad.clear();
            let n = l.ops[id].outs[out].n();
            l.grad.insert((id, out), vec![1; n]);
            (need, victim, fw)
        };
        let node = &self.nodes[at].2;
        let got = catch(|| {
            if back {
                node.backward()
            } else {
                node.forward()
            }
        });
        let mut l = self.log.borrow_mut();
        l.fails = None;
        if let Some(m) = &l.bad {
            return Err(format!("{} (operation {} failed)", m, victim));
        }
        match got {
            Ok(()) => return Err(format!("evaluating operation {} (backward: {}) did not run operation {} that fails", id, back, victim)),
            Err(m) => ensure!(m.contains(&format!("operation {} fails", victim)), "evaluating operation {} (backward: {}) ended with {} although operation {} failed", id, back, m, victim),
        }
        let ran: BTreeSet<usize> = l.ran_fw.iter().copied().collect();
        ensure!(ran.is_subset(&need), "evaluating operation {} ran {:?}", id, l.ran_fw);
        if fw {
            ensure!(l.ran_bw.is_empty(), "backward from {} began although operation {} failed", id, victim);
        } else {
            ensure!(ran == need, "backward from {} began before {:?} were evaluated, evaluated {:?}", id, need, ran);
        }
        rep.count(if fw { "failed_evaluations" } else { "failed_backward_passes" });
        Ok(())
    }

    fn backward(&mut self, at: usize, rep: &mut Rep) -> Result<(), String> {
        let (id, out) = (self.nodes[at].0, self.nodes[at].1);
        let (need, all): (BTreeSet<usize>, BTreeSet<usize>) = {
            let mut l = self.log.borrow_mut();
            let all = l.ops[id].depends.clone();
            let need: BTreeSet<usize> = all.difference(&l.done).copied().collect();
            l.may_fw = need.clone();
            l.may_bw = all.clone();
            l.ran_fw.clear();
            l.ran_bw.clear();
            l.grad.clear();
            let n = l.ops[id].outs[out].n();
            l.grad.insert((id, out), vec![1; n]);
            (need, all)
        };
        self.nodes[at].2.backward();
        let l = self.log.borrow();
        if let Some(m) = &l.bad {
            return Err(format!("{} (backward from output {} of operation {})", m, out, id));
        }
        let ran: BTreeSet<usize> = l.ran_fw.iter().copied().collect();
        ensure!(ran == need && l.ran_fw.len() == need.len(), "backward from {} first evaluated {:?} instead of {:?}", id, l.ran_fw, need);
        let ran: BTreeSet<usize> = l.ran_bw.iter().copied().collect();
        ensure!(ran == all && l.ran_bw.len() == all.len(), "backward from {} visited {:?} instead of {:?}", id, l.ran_bw, all);
        // gradients that can be seen afterwards
        for (o, j, n) in &self.nodes {
            if all.contains(o) {
                let got: Vec<i64> = n.inner_gradient().to_vec().iter().map(|&v| v as i64).collect();
                let want = l.grad.get(&(*o, *j)).cloned().unwrap_or_else(|| vec![0; l.ops[*o].outs[*j].n()]);
                ensure!(got == want, "gradient of output {} of operation {} is {:?} after backward from {}, contributions {:?}", j, o, got, id, want);
            }
        }
        rep.add("backward_visits", all.len() as u64);
        rep.count("backward_passes");
        Ok(())
    }
}

fn history(dev: Dev, r: &mut Rng, rep: &mut Rep, big: bool) -> Result<(), String> {
    let mut w = World { dev, log: Rc::new(RefCell::new(Log::default())), nodes: vec![] };
    let steps = if big { r.range(60, 250) } else { r.range(4, 40) };
    let mut trace: Vec<(u8, usize)> = vec![];
    // chains, wide or dense graphs
    let fan = r.range(1, 4) as i64;
    let p_new = r.uni(0.4, 0.9);
    for _ in 0..steps {
        let n = w.nodes.len();
        let before = w.log.borrow().ops.len();
        let res = if n == 0 || r.chance(p_new) {
            let nargs = if r.chance(0.12) {
                0
            } else if r.chance(0.03) {
                hcore::gen::tail(r, 5, 120) as usize
            } else {
                r.range(1, fan) as usize
            };
            let x = w.create(r, nargs);
            trace.push((0, nargs));
            x
        } else {
            let at = if r.chance(0.5) { n - 1 - r.us(n.min(5)) } else { r.us(n) };
            match r.us(12) {
                10 => {
                    trace.push((4, at));
                    w.failing(r, at, rep)
                }
                11 => {
                    trace.push((5, at));
                    let x = w.failing(r, at, rep);
                    // tried again at once
                    match x {
                        Ok(()) if r.chance(0.5) => w.query(r, at, rep),
                        Ok(()) => w.backward(at, rep),
                        x => x,
                    }
                }
                0..=4 => {
                    trace.push((1, at));
                    w.query(r, at, rep)
                }
                5..=7 => {
                    trace.push((2, at));
                    w.backward(at, rep)
                }
                _ => {
                    trace.push((3, at));
                    let before = { let l = w.log.borrow(); (l.ran_fw.len(), l.ran_bw.len()) };
                    w.nodes.swap_remove(at);
                    let l = w.log.borrow();
                    ensure!(before == (l.ran_fw.len(), l.ran_bw.len()), "dropping a node ran operations");
                    Ok(())
                }
            }
        };
        let _ = before;
        if let Some(m) = w.log.borrow().bad.clone() {
            return Err(format!("{}; history {:?}", m, trace));
        }
        if let Err(m) = res {
            let l = w.log.borrow();
            let args: Vec<&Vec<(usize, usize)>> = l.ops.iter().map(|o| &o.args).collect();
            return Err(format!("{}; history {:?}; inputs of the operations {:?}", m, trace, args));
        }
    }
    let l = w.log.borrow();
    rep.max("operations", l.ops.len() as u64);
    rep.add("operations", l.ops.len() as u64);
    rep.add("never_run", (l.ops.len() - l.done.len()) as u64);
    let sig: Vec<&Vec<(usize, usize)>> = l.ops.iter().map(|o| &o.args).collect();
    rep.distinct(&(sig, &trace));
    rep.sample(|| format!("{:?}", trace));
    Ok(())
}

// ---- real operations on a backend that counts its calls

#[derive(Default)]
struct Count {
    kernels: AtomicU64,
    reads: AtomicU64,
    buffers: AtomicU64,
}
impl Hook for Count {
    fn fw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.kernels.fetch_add(1, Ordering::SeqCst);
        d.call_fw_impl(name, xs, u, f, ys)
    }
    fn fw_u32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.reads.fetch_add(1, Ordering::SeqCst);
        d.call_fw_u32_impl(name, xs, u, f, ys)
    }
    fn fw_f32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.reads.fetch_add(1, Ordering::SeqCst);
        d.call_fw_f32_impl(name, xs, u, f, ys)
    }
    fn bw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.kernels.fetch_add(1, Ordering::SeqCst);
        d.call_bw_impl(name, xs, ys, gys, u, f, gx)
    }
}

fn counting() -> (Dev, Arc<Count>) {
    let c = Arc::new(Count::default());
    (interp::leak(interp::device(c.clone())), c)
}

fn kernels((dev, c): &(Dev, Arc<Count>), r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut o = Opts::new(r.range(2, 16) as usize);
    o.contrib = false;
    o.skip = &["Split", "BatchSplit"];
    let class = if r.chance(0.5) { Class::Int } else { Class::Smooth };
    let p = Prog::generate(r, class, &o);
    let nv = p.vars.len();
    let k = || c.kernels.load(Ordering::SeqCst);
    let inputs: Vec<Tensor<'static>> = (0..p.leaves.len()).map(|l| p.leaf_tensor(dev, l)).collect();
    let build = |rep: &mut Rep| -> Result<Vec<Node<'_, 'static>>, String> {
        let before = (k(), c.reads.load(Ordering::SeqCst));
        let nodes = p.nodes(|l| Node::from(&inputs[l]));
        ensure!(before == (k(), c.reads.load(Ordering::SeqCst)), "creating nodes called kernels; {:?}", p);
        rep.add("nodes_created_silently", nv as u64);
        Ok(nodes)
    };
    // one operation after the other: what each costs
    let mut cost = vec![0; nv];
    {
        let nodes = build(rep)?;
        for v in 0..nv {
            let b = k();
            nodes[v].forward();
            cost[v] = k() - b;
        }
    }
    let nodes = build(rep)?;
    let mut done = vec![false; nv];
    for _ in 0..r.range(1, 8) {
        let v = r.us(nv);
        let deps = p.deps(v);
        let want: u64 = (0..nv).filter(|&i| deps[i] && !done[i]).map(|i| cost[i]).sum();
        let b = k();
        match r.us(3) {
            0 => nodes[v].forward(),
            1 => {
                nodes[v].to_vec();
            }
            _ => {
                nodes[v].argmax(0);
            }
        }
        let got = k() - b;
        ensure!(got == want, "evaluating v{} called {} kernels; the operations still missing call {} when evaluated one after the other; {:?}", v, got, want, p);
        for i in 0..nv {
            done[i] |= deps[i];
        }
        rep.add("kernels_counted", got);
        let b = k();
        nodes[v].forward();
        nodes[v].to_vec();
        ensure!(k() == b, "evaluating v{} again called {} kernels; {:?}", v, k() - b, p);
        rep.count("evaluations_counted");
    }
    rep.distinct(&p.signature());
    Ok(())
}


// ---- deep graphs: only the order of the calls is logged

struct Order {
    dev: Dev,
    id: usize,
    log: Rc<RefCell<Vec<(bool, usize)>>>,
}
impl<'arg> Operator<'arg, 'static> for Order {
    fn name(&self) -> String {
        "Order".to_string()
    }
    fn device(&self) -> &'static Device<'static> {
        self.dev
    }
    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
        vec![Sh::scalar().real()]
    }
    fn forward(&self, _x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        self.log.borrow_mut().push((true, self.id));
        y[0].alloc();
        y[0].reset(self.id as f32);
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], _gy: &[&Tensor], _gx: &[&RefCell<Tensor>]) {
        self.log.borrow_mut().push((false, self.id));
    }
}

fn deep(dev: Dev, r: &mut Rng, rep: &mut Rep, lo: u64, hi: u64) -> Result<(), String> {
    let n = hcore::gen::tail(r, lo, hi) as usize;
    let log: Rc<RefCell<Vec<(bool, usize)>>> = Rc::new(RefCell::new(vec![]));
    let mut nodes: Vec<Node> = vec![];
    let mut args: Vec<Vec<usize>> = vec![];
    let (skip, side) = (*r.pick(&[0.0005, 0.01, 0.2]), *r.pick(&[0., 0.001, 0.05]));
    let hub = if r.chance(0.5) { 0. } else { (3. / n as f64).min(0.3) };
    let mut tip = 0;
    let mut done = vec![false; n];
    let reach = |args: &Vec<Vec<usize>>, root: usize| -> Vec<bool> {
        let mut on = vec![false; root + 1];
        on[root] = true;
        for i in (0..=root).rev() {
            if on[i] {
                args[i].iter().for_each(|&a| on[a] = true);
            }
        }
        on
    };
    // the calls since the last query against what is needed
    let judge = |args: &Vec<Vec<usize>>, done: &mut Vec<bool>, root: usize, back: bool| -> Result<(), String> {
        let on = reach(args, root);
        let calls = std::mem::take(&mut *log.borrow_mut());
        let mut seen = vec![false; args.len()];
        let mut consumers = vec![0usize; root + 1];
        for i in 0..=root {
            if on[i] {
                for &a in &args[i] {
                    consumers[a] += 1;
                }
            }
        }
        let fw: Vec<usize> = calls.iter().filter(|c| c.0).map(|c| c.1).collect();
        let bw: Vec<usize> = calls.iter().filter(|c| !c.0).map(|c| c.1).collect();
        ensure!(calls.iter().take(fw.len()).all(|c| c.0), "operations were run after the backward pass from {} began", root);
        for &i in &fw {
            ensure!(i <= root && on[i], "operation {} of {} was run but {} does not need it", i, args.len(), root);
            ensure!(!done[i], "operation {} of {} was run again", i, args.len());
            for &a in &args[i] {
                ensure!(done[a], "operation {} of {} was run before its input {}", i, args.len(), a);
            }
            done[i] = true;
        }
        for i in 0..=root {
            ensure!(!on[i] || done[i], "operation {} of {} was not run for {}", i, args.len(), root);
        }
        for &i in &bw {
            ensure!(back && i <= root && on[i] && !seen[i], "backward from {} visited {} of {} wrongly", root, i, args.len());
            ensure!(consumers[i] == 0, "backward from {} of {} visited {} before {} of its consumers", root, args.len(), i, consumers[i]);
            seen[i] = true;
            for &a in &args[i] {
                consumers[a] -= 1;
            }
        }
        ensure!(!back || (0..=root).all(|i| on[i] == seen[i]), "backward from {} of {} visited {} operations", root, args.len(), bw.len());
        Ok(())
    };
    for id in 0..n {
        let mut a = vec![];
        if id > 0 {
            if r.chance(hub) {
                // many operands, the deepest among them anywhere
                let m = hcore::gen::tail(r, 2, 3000) as usize;
                a = (0..m).map(|_| r.us(id)).collect();
                if r.chance(0.5) {
                    // the others are shallow
                    a.iter_mut().for_each(|x| *x %= 20);
                }
                let at = if r.chance(0.5) { r.us(m) } else { m - 1 };
                a[at] = tip;
                tip = id;
                rep.max("operands", m as u64);
            } else if r.chance(side) {
                // beside the main chain
                a.push(r.us(id));
            } else {
                a.push(tip);
                if r.chance(skip) {
                    a.push(if r.chance(0.5) { r.us(id.min(20)) } else { r.us(id) });
                    if r.chance(0.3) {
                        a.push(a[1]);
                    }
                }
                r.chance(0.5).then(|| a.reverse());
                tip = id;
            }
        }
        let made = {
            let xs: Vec<&Node> = a.iter().map(|&i| &nodes[i]).collect();
            Node::create(Order { dev, id, log: log.clone() }, &xs).pop().unwrap()
        };
        nodes.push(made);
        args.push(a);
        if r.chance(1.5 / n as f64) {
            nodes[tip].forward();
            judge(&args, &mut done, tip, false)?;
            rep.count("deep_partial_evaluations");
        }
    }
    ensure!(log.borrow().is_empty(), "creating operations ran {} calls", log.borrow().len());
    for k in 0..2 {
        let root = if k == 0 || r.chance(0.5) { tip } else { r.us(n) };
        nodes[root].backward();
        judge(&args, &mut done, root, true)?;
        rep.add("deep_operations", reach(&args, root).iter().filter(|x| **x).count() as u64);
    }
    rep.max("depth", n as u64);
    rep.distinct(&(n, tip, skip.to_bits(), side.to_bits()));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("history", cfg.q(40_000, 1_000_000), 8., naive, |dev, r, rep| history(*dev, r, rep, false));
    cfg.stage("large", cfg.q(3_000, 80_000), 8., naive, |dev, r, rep| history(*dev, r, rep, true));
    cfg.stage("kernels", cfg.q(20_000, 400_000), 8., counting, |d, r, rep| kernels(d, r, rep));
    cfg.stage("deep", cfg.q(300, 8_000), 6., naive, |dev, r, rep| deep(*dev, r, rep, 200, 6_000));
    cfg.stage("deeper", cfg.q(24, 600), 10., naive, |dev, r, rep| deep(*dev, r, rep, 20_000, 150_000));
    cfg.finish(
        "histories of creating operations (0..20 inputs with repetitions, 1..3 outputs), evaluations by every query, backward passes and drops, over operators that log calls and check their inputs, outputs and gradients against a model; chains of up to 150000 operations with long skips and side branches, evaluated in parts, whose call order is checked; and random programs of real operations on a backend that counts kernel calls; distinct by graph and history",
        &[],
    )
}
