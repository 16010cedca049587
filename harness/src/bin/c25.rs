//! C25: batched evaluation against every sample on its own.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::prog::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Parameter, Tensor};

fn params(dev: Dev, p: &Prog) -> Vec<Option<Parameter<'static>>> {
    p.leaves
        .iter()
        .map(|l| {
            if l.kind == LeafKind::Param {
                Some(Parameter::new(tensor(dev, l.s, &l.data), tensor(dev, l.s, &vec![0.; l.s.n()])))
            } else {
                None
            }
        })
        .collect()
}

/// Values of all variables and gradients of all parameters for the chosen root.
fn run(dev: Dev, p: &Prog, root: usize) -> (Vec<Vec<f32>>, Vec<Option<Vec<f32>>>) {
    let mut ps = params(dev, p);
    let inputs: Vec<Tensor<'static>> = (0..p.leaves.len()).map(|k| p.leaf_tensor(dev, k)).collect();
    let vals = {
        let mut ptr: Vec<*mut Parameter<'static>> = ps.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| p as *mut _)).collect();
        let nodes = p.nodes(|k| match p.leaves[k].kind {
            LeafKind::Param => Node::from(unsafe { &mut *ptr[k] }),
            LeafKind::Input => Node::from(&inputs[k]),
            LeafKind::Owned => Node::from(p.leaf_tensor(dev, k)),
        });
        nodes[root].backward();
        ptr.clear();
        nodes.iter().map(|n| n.to_vec()).collect()
    };
    (vals, ps.iter().map(|p| p.as_ref().map(|p| p.gradient.to_vec())).collect())
}

fn program(dev: Dev, r: &mut Rng, rep: &mut Rep, class: Class, steps: usize) -> Result<(), String> {
    let bsz = if r.chance(0.1) { gen::tail(r, 5, 40) } else { r.range(2, 5) as u64 } as u32;
    let mut o = Opts::new(r.range(1, steps as i64) as usize);
    o.samplewise = true;
    o.batch = Some(bsz);
    o.max = 100;
    o.limit = (1 << 20) as f64;
    o.params = 0.7;
    let p = Prog::generate(r, class, &o);
    if p.vars.iter().any(|s| s.b != 1 && s.b != bsz) {
        hcore::harness_error!("batch in {:?}", p);
    }
    let cand: Vec<usize> = (0..p.vars.len()).filter(|&v| p.vars[v].b == bsz).collect();
    if cand.is_empty() {
        return Ok(());
    }
    let root = cand[cand.len() - 1 - r.us(cand.len().min(3))];
    let nl = p.leaves.len();
    if class == Class::Int {
        let worst = (0..nl).filter(|&k| p.leaves[k].kind == LeafKind::Param).flat_map(|k| p.gradient(k, root).1).fold(0f64, f64::max);
        if worst > 4e6 {
            return Ok(());
        }
    }
    if r.chance(0.3) {
        poison(dev, &[64, 128], 4, f32::NAN);
    }
    let (vals, grads) = run(dev, &p, root);
    let mut sums: Vec<Vec<f64>> = p.leaves.iter().map(|l| vec![0.; l.s.n()]).collect();
    for b in 0..bsz {
        let q = p.sample(b);
        let (v1, g1) = run(dev, &q, root);
        for v in 0..p.vars.len() {
            let n = p.vars[v].vol() as usize;
            let bb = if p.vars[v].b == 1 { 0 } else { b as usize };
            let got = &vals[v][bb * n..(bb + 1) * n];
            ensure!(v1[v].len() == n, "sample {} of v{} has {} values", b, v, v1[v].len());
            for i in 0..n {
                let e = p.val[v].x[bb * n + i].e.e;
                let tol = if class == Class::Int { 0. } else { 4. * e };
                ensure!(got[i] == v1[v][i] || ((got[i] - v1[v][i]).abs() as f64) <= tol, "v{} sample {} element {} is {} in the batch and {} alone; {:?}", v, b, i, got[i], v1[v][i], p);
                rep.count("elements");
            }
        }
        for k in 0..nl {
            if let Some(g) = &g1[k] {
                for i in 0..g.len() {
                    sums[k][i] += g[i] as f64;
                }
            }
        }
    }
    for k in 0..nl {
        if let Some(g) = &grads[k] {
            let (_, a) = p.gradient(k, root);
            for i in 0..g.len() {
                let tol = if class == Class::Int { 0. } else { 1e-4 * a[i] };
                ensure!((g[i] as f64 - sums[k][i]).abs() <= tol, "gradient of v{} from v{} element {} is {} in the batch and {} in sum over the samples; {:?}", p.leaves[k].var, root, i, g[i], sums[k][i], p);
                rep.count("gradient_elements");
            }
        }
    }
    for k in p.kinds() {
        rep.count(&format!("op_{}", k));
    }
    rep.distinct(&(p.signature(), root));
    rep.sample(|| format!("root v{} {:?}", root, p));
    Ok(())
}

/// Every sample-wise operation on larger shapes, eagerly.
fn single(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str], max: u64) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let (op, shapes) = gen::op(r, kind, max);
    let out = op.infer(&shapes).unwrap();
    let bsz = out[0].b;
    if !op.samplewise() || bsz == 1 {
        return Ok(());
    }
    let data = gen::values(r, &op, &shapes, Vals::Plain);
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let refs: Vec<&Tensor> = xs.iter().collect();
    let ys: Vec<Vec<f32>> = eager(&op, &refs, 0).iter().map(|y| y.to_vec()).collect();
    let rt: Vec<RT<Ev>> = shapes.iter().zip(&data).map(|(s, d)| RT::from_f32(*s, d)).collect();
    let rr: Vec<&RT<Ev>> = rt.iter().collect();
    let want = op.eval(&rr);
    for b in 0..bsz {
        let xb: Vec<Tensor<'static>> = shapes
            .iter()
            .zip(&data)
            .map(|(s, d)| {
                let t = RT::<f64>::from_f32(*s, d).sample(b);
                let v: Vec<f32> = t.x.iter().map(|&x| x as f32).collect();
                tensor(dev, t.s, &v)
            })
            .collect();
        let rb: Vec<&Tensor> = xb.iter().collect();
        let opb = match &op {
            Op::Pick(i, d) if i.len() > 1 => Op::Pick(vec![i[b as usize]], *d),
            Op::SparseSce(i, d) if i.len() > 1 => Op::SparseSce(vec![i[b as usize]], *d),
            o => o.clone(),
        };
        for (k, y) in eager(&opb, &rb, 0).iter().enumerate() {
            let n = out[k].vol() as usize;
            let got = y.to_vec();
            ensure!(got.len() == n, "{:?} on {:?} sample {}: {} values", op, shapes, b, got.len());
            let part = &ys[k][b as usize * n..(b as usize + 1) * n];
            for i in 0..n {
                let tol = 4. * want[k].x[b as usize * n + i].e;
                ensure!(got[i] == part[i] || ((got[i] - part[i]).abs() as f64) <= tol, "{:?} on {:?}: sample {} element {} is {} in the batch and {} alone; inputs {:?}", op, shapes, b, i, part[i], got[i], data);
                rep.count("elements_single");
            }
        }
    }
    rep.count(&format!("single_{}", kind));
    rep.distinct(&(format!("{:?}", op), shapes));
    Ok(())
}

/// Gradients of single batched calls, with operands shared by the samples and many samples, against the sum over the samples.
fn gradients(dev: Dev, r: &mut Rng, rep: &mut Rep, kinds: &[&str], max: u64) -> Result<(), String> {
    let kind = *r.pick(kinds);
    let (op, shapes) = gen::op(r, kind, max);
    let out = op.infer(&shapes).unwrap();
    let bsz = out[0].b;
    if !op.samplewise() || bsz == 1 || !op.lazy() {
        return Ok(());
    }
    let exact = op.structural() || matches!(op, Op::Add | Op::Sub | Op::Mul | Op::AddK(_) | Op::SubK(_) | Op::KAdd(_) | Op::KSub(_) | Op::Neg | Op::Sum(_) | Op::Matmul | Op::SliceSum | Op::Abs | Op::Relu);
    let mut data = gen::values(r, &op, &shapes, if exact { Vals::Int } else { Vals::Smooth });
    if matches!(op, Op::Max(_) | Op::Min(_)) {
        // no ties: they have no defined choice
        for d in data.iter_mut() {
            let mut v: Vec<f32> = (0..d.len()).map(|i| i as f32).collect();
            r.shuffle(&mut v);
            *d = v;
        }
    }
    let q = r.us(out.len());
    let co: Vec<f32> = (0..out[q].n()).map(|_| r.range(-4, 4) as f32).collect();
    let style = r.below(4) as u32;
    let go = |op: &Op, xs: &[(Sh, Vec<f32>)], s: Sh, w: &[f32]| -> Vec<Option<Vec<f32>>> {
        let ns: Vec<Node> = xs.iter().map(|(s, d)| Node::from(tensor(dev, *s, d))).collect();
        let ys = lazy(op, &ns.iter().collect::<Vec<_>>(), style);
        let z = &ys[q] * Node::from(tensor(dev, s, w));
        z.backward();
        ns.iter().map(|n| if n.inner_gradient().valid() { Some(n.inner_gradient().to_vec()) } else { None }).collect()
    };
    let xs: Vec<(Sh, Vec<f32>)> = shapes.iter().copied().zip(data.iter().cloned()).collect();
    if r.chance(0.3) {
        poison(dev, &[64, 128, 256], 4, f32::NAN);
    }
    let got = go(&op, &xs, out[q], &co);
    let mut sum: Vec<Vec<f64>> = shapes.iter().map(|s| vec![0.; s.n()]).collect();
    let mut abs = sum.clone();
    for b in 0..bsz {
        let xb: Vec<(Sh, Vec<f32>)> = xs
            .iter()
            .map(|(s, d)| {
                let v = s.vol() as usize;
                let k = if s.b == 1 { 0 } else { b as usize };
                (s.with_b(1), d[k * v..(k + 1) * v].to_vec())
            })
            .collect();
        let opb = match &op {
            Op::Pick(i, d) if i.len() > 1 => Op::Pick(vec![i[b as usize]], *d),
            Op::SparseSce(i, d) if i.len() > 1 => Op::SparseSce(vec![i[b as usize]], *d),
            o => o.clone(),
        };
        let n = out[q].vol() as usize;
        let one = go(&opb, &xb, out[q].with_b(1), &co[b as usize * n..(b as usize + 1) * n]);
        for (k, g) in one.iter().enumerate() {
            ensure!(g.is_some() == got[k].is_some(), "{:?} on {:?}: operand {} has a gradient in one case only", op, shapes, k);
            if let Some(g) = g {
                let at = if shapes[k].b == 1 { 0 } else { b as usize * g.len() };
                for i in 0..g.len() {
                    sum[k][at + i] += g[i] as f64;
                    abs[k][at + i] += (g[i] as f64).abs();
                }
            }
        }
    }
    for k in 0..shapes.len() {
        if let Some(g) = &got[k] {
            ensure!(g.len() == sum[k].len(), "{:?} on {:?}: gradient of operand {} has {} values", op, shapes, k, g.len());
            let most = abs[k].iter().fold(0f64, |a, b| a.max(*b));
            if !(most < 1e30) {
                rep.count("gradients_not_finite");
                continue;
            }
            let tol = if exact { 0. } else { 1e-3 * most + 1e-30 };
            for i in 0..g.len() {
                ensure!((g[i] as f64 - sum[k][i]).abs() <= tol, "{:?} on {:?} result {}: gradient of operand {} element {} is {} in the batch and {} in sum over the samples; inputs {:?} cotangent {:?}", op, shapes, q, k, i, g[i], sum[k][i], data, co);
                rep.count(if exact { "gradient_elements_exact" } else { "gradient_elements_near" });
            }
            if shapes[k].b == 1 {
                rep.count("shared_operands");
            }
        }
    }
    rep.max("batch", bsz as u64);
    rep.count(&format!("gradient_{}", kind));
    rep.distinct(&(format!("{:?}", op), shapes));
    Ok(())
}

/// Identities between the batch operations, values and gradients.
fn identities(dev: Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = r.range(1, 4) as u32;
    let m = r.range(1, 4) as u32;
    let s = gen::shape(r, 60);
    let s = gen::shrink(r, s.with_b(1), 60).with_b(n * m);
    let data: Vec<f32> = (0..s.n()).map(|_| r.range(-50, 50) as f32).collect();
    let w: Vec<f32> = (0..s.n()).map(|_| r.range(-9, 9) as f32).collect();
    let x = tensor(dev, s, &data);
    let wt = tensor(dev, s, &w);
    let sig = |m: &str| format!("{} for {:?} split in {}", m, s, n);
    let sm = s.with_b(m);
    // tensors
    let parts = x.batch_split(n);
    let pr: Vec<&Tensor> = parts.iter().collect();
    ensure!(<Tensor as BasicFunctions>::batch_concat(&pr).to_vec() == data, "{}", sig("concatenating the split parts"));
    for (k, p) in parts.iter().enumerate() {
        let sl = x.batch_slice(k as u32 * m, (k as u32 + 1) * m);
        ensure!(sl.to_vec() == p.to_vec() && Sh::of(sl.shape()) == sm && Sh::of(p.shape()) == sm, "{}", sig("slice against split"));
        let ids: Vec<u32> = (k as u32 * m..(k as u32 + 1) * m).collect();
        ensure!(x.batch_pick(&ids).to_vec() == p.to_vec(), "{}", sig("pick against split"));
    }
    let mut total = tensor(dev, s.with_b(1), &vec![0.; s.vol() as usize]);
    for b in 0..s.b {
        total += &x.batch_slice(b, b + 1);
    }
    ensure!(total.to_vec() == x.batch_sum().to_vec(), "{}", sig("sum of slices against batch_sum"));
    let psum: Vec<Tensor> = parts.iter().map(|p| p.batch_sum()).collect();
    let prs: Vec<&Tensor> = psum.iter().collect();
    ensure!(<Tensor as BasicFunctions>::batch_concat(&prs).batch_sum().to_vec() == total.to_vec(), "{}", sig("sum of partial sums"));
    // gradients: every way of taking the batch apart and together again hands the cotangent through
    for way in 0..4 {
        let nx = Node::from(&x);
        let y = match way {
            0 => {
                let p = nx.batch_split(n);
                let r: Vec<&Node> = p.iter().collect();
                <Node as BasicFunctions>::batch_concat(&r)
            }
            1 => {
                let p: Vec<Node> = (0..n).map(|k| nx.batch_slice(k * m, (k + 1) * m)).collect();
                let r: Vec<&Node> = p.iter().collect();
                <Node as BasicFunctions>::batch_concat(&r)
            }
            2 => {
                let p: Vec<Node> = (0..s.b).map(|k| nx.batch_pick(&[k])).collect();
                let r: Vec<&Node> = p.iter().collect();
                <Node as BasicFunctions>::batch_concat(&r)
            }
            _ => {
                let ids: Vec<u32> = (0..s.b).collect();
                nx.batch_pick(&ids)
            }
        };
        let z = (&y * &Node::from(&wt)).batch_sum();
        z.backward();
        ensure!(y.to_vec() == data, "{} way {}", sig("values"), way);
        ensure!(nx.inner_gradient().to_vec() == w, "{} way {}: {:?} instead of {:?}", sig("gradient"), way, nx.inner_gradient().to_vec(), w);
    }
    // picking a sample several times adds its gradients up
    let ids: Vec<u32> = (0..r.range(1, 6)).map(|_| r.below(s.b as u64) as u32).collect();
    let nx = Node::from(&x);
    let y = nx.batch_pick(&ids).batch_sum();
    y.backward();
    let g = nx.inner_gradient().to_vec();
    let v = s.vol() as usize;
    for b in 0..s.b {
        let c = ids.iter().filter(|&&i| i == b).count() as f32;
        ensure!(g[b as usize * v..(b as usize + 1) * v].iter().all(|&q| q == c), "{} {:?}: {:?}", sig("gradient of picking"), ids, g);
    }
    rep.distinct(&(s, n));
    rep.count("identity_groups");
    let _ = check::same_bits;
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    let all: Vec<&str> = KINDS.iter().copied().filter(|k| *k != "KPow").chain(["Mean", "SliceSum", "LayerNorm"]).collect();
    cfg.stage("integer", cfg.q(60_000, 1_500_000), 10., naive, |dev, r, rep| program(*dev, r, rep, Class::Int, 14));
    cfg.stage("smooth", cfg.q(40_000, 1_000_000), 8., naive, |dev, r, rep| program(*dev, r, rep, Class::Smooth, 10));
    cfg.stage("single", cfg.q(150_000, 3_000_000), 6., naive, |dev, r, rep| single(*dev, r, rep, &all, 300));
    cfg.stage("large", cfg.q(4_000, 80_000), 6., naive, |dev, r, rep| single(*dev, r, rep, &all, 20_000));
    cfg.stage("gradients", cfg.q(150_000, 3_000_000), 6., naive, |dev, r, rep| gradients(*dev, r, rep, &all, 300));
    let shared = ["Pick", "Pick", "SparseSce", "Matmul", "Add", "Mul", "Sub", "Div", "Pow", "Concat", "Slice", "Sce"];
    cfg.stage("gradients_large", cfg.q(20_000, 400_000), 6., naive, |dev, r, rep| gradients(*dev, r, rep, &shared, 10_000));
    cfg.stage("identities", cfg.q(20_000, 400_000), 5., naive, |dev, r, rep| identities(*dev, r, rep));
    cfg.finish(
        "random programs over sample-wise operations with operands of batch 1 or B (2..5, some to 40), every operation on its own with values and gradients, and the batch operations' identities; non-trivial: batch larger than one; distinct by program or operation, arguments and shapes",
        &["integer programs must agree exactly, others within the single-precision error bound of the reference model"],
    )
}
