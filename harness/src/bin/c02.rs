//! C02: acceptance and result shapes.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Tensor};

fn case(dev: Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let all: Vec<&str> = KINDS.iter().chain(CONTRIB_KINDS).copied().collect();
    let kind = *r.pick(&all);
    let max = gen::limit(r, 60, 5_000, 0.01);
    let (mut op, mut shapes) = gen::op(r, kind, max);
    let n = match r.us(8) {
        0 | 1 => 0,
        2..=5 => 1,
        _ => 2,
    };
    for _ in 0..n {
        if r.chance(0.5) {
            gen::mutate_args(r, &mut op);
        } else {
            let k = r.us(shapes.len());
            shapes[k] = gen::mutate_shape(r, shapes[k]);
        }
    }
    if r.chance(0.05) {
        // random operands that have nothing to do with each other
        for s in shapes.iter_mut() {
            *s = gen::shape(r, 30);
        }
    }
    let want = op.infer(&shapes);
    if let Some(w) = &want {
        // too large to be worth computing
        if w.iter().map(|s| s.size()).sum::<u64>() > 20_000 {
            return Ok(());
        }
    }
    let random = matches!(op, Op::Dropout(p, true) | Op::DropoutDim(_, p, true) if p < 1.);
    let data = gen::values(r, &gen::domain(&op, &shapes), &shapes, Vals::Plain);
    let xs: Vec<Tensor<'static>> = shapes.iter().zip(&data).map(|(s, d)| tensor(dev, *s, d)).collect();
    let style = r.below(128) as u32;
    let what = |m: &str| format!("{} {:?} on {:?}", m, op, shapes);
    let refs: Vec<&Tensor> = xs.iter().collect();
    let got = catch(|| hcore::single::eager_any(&op, dev, &refs, style).iter().map(|y| (Sh::of(y.shape()), y.to_vec())).collect::<Vec<_>>());
    let reference = match &want {
        Some(_) if !random => {
            let rt: Vec<RT<Ev>> = shapes.iter().zip(&data).map(|(s, d)| RT::from_f32(*s, d)).collect();
            let rr: Vec<&RT<Ev>> = rt.iter().collect();
            Some(op.eval(&rr))
        }
        _ => None,
    };
    let judge = |mode: &str, got: &Result<Vec<(Sh, Vec<f32>)>, String>| -> Result<(), String> {
        match (&want, got) {
            (None, Err(_)) => Ok(()),
            (None, Ok(y)) => Err(format!("{} was accepted with result {:?}", what(mode), y.iter().map(|y| y.0).collect::<Vec<_>>())),
            (Some(w), Err(m)) => Err(format!("{} must give {:?} but panicked: {}", what(mode), w, m)),
            (Some(w), Ok(y)) => {
                let s: Vec<Sh> = y.iter().map(|y| y.0).collect();
                ensure!(&s == w, "{} gave {:?} instead of {:?}", what(mode), s, w);
                for (k, (s, v)) in y.iter().enumerate() {
                    ensure!(s.n() == v.len(), "{}: {} values for {:?}", what(mode), v.len(), s);
                    if let Some(e) = &reference {
                        check::close(v, &e[k]).map_err(|m| format!("{}: {}", what(mode), m))?;
                    }
                }
                Ok(())
            }
        }
    };
    judge("eager", &got)?;
    if op.lazy() {
        let mut before = None;
        let lazy_style = if r.chance(0.7) { 0 } else { r.below(4) as u32 };
        let got = catch(|| {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let rn: Vec<&Node> = ns.iter().collect();
            let ys = lazy(&op, &rn, lazy_style);
            before = Some(ys.iter().map(|y| Sh::of(y.shape())).collect::<Vec<_>>());
            ys.iter().map(|y| { let v = y.to_vec(); (Sh::of(y.shape()), v) }).collect::<Vec<_>>()
        });
        judge("lazy", &got)?;
        if let (Some(w), Some(b)) = (&want, &before) {
            ensure!(b == w, "{}: node shapes before evaluation {:?}, expected {:?}", what("lazy"), b, w);
        }
        rep.count("lazy_calls");
    }
    rep.count(if want.is_some() { "accepted" } else { "refused" });
    rep.count(&format!("{}_{}", if want.is_some() { "accepted" } else { "refused" }, kind));
    if n > 0 {
        rep.distinct(&(format!("{:?}", op), shapes.clone()));
    }
    rep.sample(|| format!("{} -> {:?}", what(""), want));
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("mutated", cfg.q(700_000, 15_000_000), 16., naive, |dev, r, rep| case(*dev, r, rep));
    cfg.stage("empty", cfg.q(20, 20), 2., naive, |dev, _r, rep| {
        let none: [&Tensor; 0] = [];
        ensure!(catch(|| <Tensor as BasicFunctions>::concat(&none, 0)).is_err(), "concat of nothing was accepted");
        ensure!(catch(|| <Tensor as BasicFunctions>::batch_concat(&none)).is_err(), "batch_concat of nothing was accepted");
        let nn: [&Node; 0] = [];
        ensure!(catch(|| <Node as BasicFunctions>::concat(&nn, 0).to_vec()).is_err(), "concat of no nodes was accepted");
        ensure!(catch(|| <Node as BasicFunctions>::batch_concat(&nn).to_vec()).is_err(), "batch_concat of no nodes was accepted");
        for n in [0usize, 1, 5, 7, 12] {
            let s = Sh::new(&[2, 3], 1);
            let v = vec![1f32; n];
            ensure!(catch(|| dev.new_tensor_by_slice(s.real(), &v)).is_ok() == (n == 6), "a 2x3 tensor of {} values", n);
        }
        rep.count("empty_or_wrong_lists");
        Ok(())
    });
    // every pair of small shapes for the binary rules, every argument of small extents
    let dims: Vec<Sh> = {
        let mut v = vec![];
        for a in 1..=3u32 {
            for b in 1..=3u32 {
                for c in 1..=2u32 {
                    for bt in 1..=3u32 {
                        v.push(Sh::new(&[a, b, c], bt));
                    }
                }
            }
        }
        v
    };
    let n = dims.len() as u64;
    cfg.stage("pairs", if cfg.replay.is_some() { 1 } else { cfg.q(60_000, 60_000) }, 10., naive, |dev, r, rep| {
        let (a, b) = (dims[r.us(n as usize)], dims[r.us(n as usize)]);
        let xs = [tensor(*dev, a, &vec![1.; a.n()]), tensor(*dev, b, &vec![1.; b.n()])];
        let refs: Vec<&Tensor> = xs.iter().collect();
        for op in [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow, Op::Matmul, Op::Sce(0), Op::Sce(2), Op::Concat(0), Op::Concat(1), Op::Concat(3), Op::BatchConcat] {
            let want = op.infer(&[a, b]);
            let got = catch(|| eager(&op, &refs, 0).iter().map(|y| Sh::of(y.shape())).collect::<Vec<_>>()).ok();
            ensure!(got == want, "eager {:?} on {:?} {:?} gave {:?} instead of {:?}", op, a, b, got, want);
            let got = catch(|| {
                let ns: Vec<Node> = xs.iter().map(Node::from).collect();
                let rn: Vec<&Node> = ns.iter().collect();
                let ys = lazy(&op, &rn, 0);
                ys[0].forward();
                let r: Vec<Sh> = ys.iter().map(|y| Sh::of(y.inner_value().shape())).collect();
                r
            })
            .ok();
            ensure!(got == want, "lazy {:?} on {:?} {:?} gave {:?} instead of {:?}", op, a, b, got, want);
            rep.distinct(&(format!("{:?}", op), a, b));
            rep.count(if want.is_some() { "pairs_accepted" } else { "pairs_refused" });
        }
        Ok(())
    });
    cfg.finish(
        "valid random calls with up to two arguments or operand shapes mutated (all kinds), pairs of small shapes for the two-operand operations; non-trivial: mutated; distinct by operation, arguments and shapes",
        &["the acceptance and shape rules are those of src/ops.rs infer"],
    )
}
