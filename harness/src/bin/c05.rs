//! C05: accumulated gradients of random graphs against forward-mode derivatives.
use hcore::ops::*;
use hcore::prog::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::ensure;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Parameter, Tensor};

/// Expected gradient with tolerance.
#[derive(Clone)]
struct Exp {
    g: Vec<f64>,
    tol: Vec<f64>,
}

fn compare(what: &dyn Fn() -> String, p: &Parameter, e: &Exp, value: &[f32]) -> Result<(), String> {
    hcore::check::near(&p.gradient.to_vec(), &e.g, &e.tol).map_err(|m| format!("{}: gradient: {} (expected {:?}, got {:?})", what(), m, e.g, p.gradient.to_vec()))?;
    ensure!(hcore::check::same_bits(&p.value.to_vec(), value), "{}: parameter value changed", what());
    Ok(())
}

fn case(dev: Dev, r: &mut Rng, rep: &mut Rep, class: Class, steps: usize, pool: bool) -> Result<(), String> {
    let mut o = Opts::new(r.range(1, steps as i64) as usize);
    o.params = 0.85;
    if class == Class::Int {
        o.limit = (1 << 21) as f64;
    }
    let nprog = if r.chance(0.2) { 2 } else { 1 };
    let prog = Prog::generate(r, class, &o);
    if pool && r.chance(0.5) {
        poison(dev, &[64, 128], 6, f32::NAN);
    }
    let mk = |l: &Leaf| {
        let z = vec![0.; l.s.n()];
        Parameter::new(tensor(dev, l.s, &l.data), tensor(dev, l.s, &z))
    };
    let nl = prog.leaves.len();
    let mut params: Vec<Option<Parameter<'static>>> =
        prog.leaves.iter().map(|l| if l.kind == LeafKind::Param { Some(mk(l)) } else { None }).collect();
    let mut bystander = Parameter::new(tensor(dev, Sh::new(&[3], 1), &[1., 2., 3.]), tensor(dev, Sh::new(&[3], 1), &[7., 8., 9.]));
    let inputs: Vec<Tensor<'static>> = (0..nl).map(|k| prog.leaf_tensor(dev, k)).collect();
    let mut expect: Vec<Exp> = prog.leaves.iter().map(|l| Exp { g: vec![0.; l.s.n()], tol: vec![0.; l.s.n()] }).collect();
    // initial gradients other than zero: backward adds to them
    for k in 0..nl {
        if let Some(p) = &mut params[k] {
            if r.chance(0.3) {
                let v = r.range(-5, 5) as f32;
                p.gradient.reset(v);
                for g in expect[k].g.iter_mut() {
                    *g = v as f64;
                }
            }
        }
    }
    let mut script = String::new();
    let mut passes = 0;
    let mut budget = 0f64;
    let unused_root = r.chance(0.3);
    for _ in 0..nprog {
        if r.chance(0.15) {
            let k = r.us(nl);
            if let Some(p) = &mut params[k] {
                p.reset_gradient();
                expect[k] = Exp { g: vec![0.; prog.leaves[k].s.n()], tol: vec![0.; prog.leaves[k].s.n()] };
                script += &format!("reset {}; ", k);
            }
        }
        {
            // one graph
            let mut ptrs: Vec<*mut Parameter<'static>> =
                params.iter_mut().map(|p| p.as_mut().map_or(std::ptr::null_mut(), |p| p as *mut _)).collect();
            let _by = Node::from(&mut bystander);
            // the graph may be evaluated in parts, or queried, while it is being built
            let early = if r.chance(0.4) { *r.pick(&[0.1, 0.3, 0.8]) } else { 0. };
            let mut q = r.fork();
            let mut evaluated = 0u64;
            let mut roots: Vec<usize> = vec![];
            let isparam: Vec<bool> = params.iter().map(|p| p.is_some()).collect();
            let worst = |root: usize| (0..nl).filter(|&k| isparam[k]).flat_map(|k| prog.gradient(k, root).1).fold(0f64, f64::max);
            let add = |expect: &mut Vec<Exp>, root: usize| {
                for k in 0..nl {
                    if isparam[k] {
                        let (g, a) = prog.gradient(k, root);
                        for i in 0..g.len() {
                            expect[k].g[i] += g[i];
                            if class == Class::Smooth {
                                expect[k].tol[i] += 4e-4 * a[i];
                            }
                        }
                    }
                }
            };
            let leaf = |k: usize| match prog.leaves[k].kind {
                LeafKind::Param => Node::from(unsafe { &mut *ptrs[k] }),
                LeafKind::Input => Node::from(&inputs[k]),
                LeafKind::Owned => Node::from(prog.leaf_tensor(dev, k)),
            };
            let nodes = prog.nodes_then(leaf, |v| {
                if q.chance(early) {
                    let at = if q.chance(0.5) { v.len() - 1 } else { q.us(v.len()) };
                    let n = &v[at];
                    match q.us(4) {
                        0 => n.forward(),
                        1 if roots.len() < 2 => {
                            if class == Class::Int {
                                let w = worst(at);
                                if budget + w > 4e6 {
                                    return;
                                }
                                budget += w;
                            }
                            n.backward();
                            roots.push(at);
                        }
                        2 => {
                            n.to_vec();
                        }
                        _ => {
                            n.argmax(0);
                        }
                    }
                    evaluated += 1;
                }
            });
            if evaluated > 0 {
                rep.count("graphs_extended_after_evaluation");
                script += "evaluated while built; ";
            }
            for root in roots {
                rep.count("passes");
                rep.count("passes_while_built");
                passes += 1;
                script += &format!("backward v{} while built; ", root);
                add(&mut expect, root);
            }
            let nback = if r.chance(0.6) { 1 } else { r.range(2, 4) };
            for _ in 0..nback {
                let nv = prog.vars.len();
                let root = if unused_root { r.us(nv) } else { nv - 1 - r.us(nv.min(2)) };
                if r.chance(0.3) {
                    let k = r.us(nv);
                    let _ = nodes[k].to_vec();
                }
                if class == Class::Int {
                    // everything must stay exact
                    let worst = worst(root);
                    budget += worst;
                    if budget > 4e6 {
                        break;
                    }
                }
                nodes[root].backward();
                rep.count("passes");
                passes += 1;
                script += &format!("backward v{}; ", root);
                add(&mut expect, root);
            }
            // values after backward are still right
            let k = r.us(prog.vars.len());
            let got = nodes[k].to_vec();
            for (i, (g, e)) in got.iter().zip(&prog.val[k].x).enumerate() {
                let tol = if class == Class::Int { 0. } else { 4. * e.e.e + 1e-6 };
                ensure!((*g as f64 - e.e.v).abs() <= tol, "value of v{} element {} after backward is {}, expected {}; {} {:?}", k, i, g, e.e.v, script, prog);
            }
        }
        for k in 0..nl {
            if let Some(p) = &params[k] {
                // the value may also be rounded when contributions are added up
                let mut e = expect[k].clone();
                if class == Class::Smooth {
                    for i in 0..e.g.len() {
                        e.tol[i] += 1e-6 * e.g[i].abs();
                        if e.tol[i] > 0. { e.tol[i] += 1e-6 * passes as f64 * 10. }
                    }
                }
                compare(&|| format!("parameter v{}: {} {:?}", prog.leaves[k].var, script, prog), p, &e, &prog.leaves[k].data)?;
                rep.add("gradient_elements", e.g.len() as u64);
                if e.g.iter().any(|&x| x != 0.) {
                    rep.count("nonzero_gradients");
                }
            }
        }
        ensure!(bystander.gradient.to_vec() == [7., 8., 9.], "a parameter outside of the graph got a gradient: {:?}", prog);
        for k in 0..nl {
            ensure!(hcore::check::same_bits(&inputs[k].to_vec(), &prog.leaves[k].data), "an input changed: {:?}", prog);
        }
    }
    for k in prog.kinds() {
        rep.count(&format!("op_{}", k));
    }
    rep.max("steps", prog.items.len() as u64);
    if prog.kinds().len() >= 2 {
        rep.distinct(&(prog.signature(), script.clone()));
    }
    rep.sample(|| format!("{} {:?}", script, prog));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("integer", cfg.q(200_000, 5_000_000), 10., naive, |dev, r, rep| case(*dev, r, rep, Class::Int, 14, true));
    cfg.stage("smooth", cfg.q(100_000, 3_000_000), 10., naive, |dev, r, rep| case(*dev, r, rep, Class::Smooth, 10, true));
    cfg.stage("long", cfg.q(10_000, 300_000), 6., naive, |dev, r, rep| case(*dev, r, rep, Class::Int, 60, false));
    cfg.finish(
        "random graphs (shared nodes, several roots, partly used multi-output operations, repeated and multiple passes, several graphs over the same parameters, resets); non-trivial: at least two operations; distinct by program and pass script",
        &["the derivative of the reference model by forward-mode differentiation in f64 is the true derivative", "programs are kept away from kinks, ties and ill-conditioned points; integer programs are compared exactly"],
    )
}
