//! C21: in-place updates, copies, views, replacement.
use hcore::ops::*;
use hcore::refm::*;
use hcore::util::*;
use prima_undine::functions::BasicFunctions;
use hcore::world::World;

fn run(d: &(Dev, Dev), r: &mut Rng, rep: &mut Rep, max: u64, steps: i64) -> Result<(), String> {
    let exact = r.chance(0.5);
    let mut w = World::new(&[d.0, d.1], exact, max);
    w.odd = !exact && r.chance(0.3);
    if w.odd {
        rep.count("histories_with_odd_values");
    }
    for _ in 0..r.range(5, steps) {
        w.step(r, rep)?;
        rep.count("steps");
    }
    let log = w.log.join("; ");
    rep.distinct(&log);
    rep.sample(|| log.clone());
    drop(w);
    Ok(())
}

/// Single in-place operations on buffers of up to millions of elements.
fn bulk(d: &mut Dev, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let n = match r.us(3) {
        0 => r.range(1, 3000) as usize,
        1 => (1usize << r.range(8, 20)).wrapping_add(r.range(0, 5) as usize).wrapping_sub(2),
        _ => r.range(3000, 700_000) as usize,
    };
    let b = if r.chance(0.3) { r.range(1, 5) as u32 } else { 1 };
    let (v, n) = (n as u32, n * b as usize);
    let s = Sh::new(&[v], b);
    let gen = |r: &mut Rng, n: usize| -> Vec<f32> {
        let k = r.next();
        (0..n).map(|i| ((i as u64 ^ k).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 54) as f32 - 512.).collect()
    };
    let mut x = gen(r, n);
    let mut t = d.new_tensor_by_slice(s.real(), &x);
    for _ in 0..r.range(1, 4) {
        let op = r.us(6);
        match op {
            0 => {
                let k = r.range(-9, 9) as f32;
                t.reset(k);
                x = vec![k; n];
            }
            1 => {
                x = gen(r, n);
                d.reset_tensor_by_slice(&mut t, &x);
            }
            2 => {
                x = gen(r, n);
                let o = d.new_tensor_by_slice(s.real(), &x);
                d.reset_tensor_by_tensor(&mut t, &o);
            }
            3 => {
                let k = *r.pick(&[0.5f32, -1., 2., 0.]);
                t *= k;
                x.iter_mut().for_each(|x| *x *= k);
            }
            _ => {
                let m = if r.chance(0.5) { n } else { v as usize };
                let o = gen(r, m);
                let ot = d.new_tensor_by_slice(s.with_b((m / v as usize) as u32).real(), &o);
                let minus = op == 4;
                if minus {
                    t -= &ot
                } else {
                    t += ot
                }
                x.iter_mut().enumerate().for_each(|(i, x)| if minus { *x -= o[i % m] } else { *x += o[i % m] });
            }
        }
        let got = t.to_vec();
        let name = ["reset", "reset by slice", "reset by tensor", "*=", "-=", "+="][op];
        if let Some(i) = (0..n).find(|&i| got[i].to_bits() != x[i].to_bits() && !(got[i] == 0. && x[i] == 0.)) {
            return Err(format!("{} on {:?}: element {} is {}, expected {}", name, s, i, got[i], x[i]));
        }
        hcore::ensure!(got.len() == n, "{} on {:?}: {} elements", name, s, got.len());
        rep.count("bulk_operations");
        rep.add("bulk_elements", n as u64);
    }
    rep.distinct(&s);
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    let devs = || (naive(), naive());
    cfg.stage("histories", cfg.q(90_000, 3_000_000), 14., devs, |d, r, rep| run(d, r, rep, 24, 45));
    cfg.stage("large", cfg.q(4_000, 100_000), 8., devs, |d, r, rep| run(d, r, rep, 3000, 30));
    cfg.stage("huge", cfg.q(200, 6_000), 6., devs, |d, r, rep| run(d, r, rep, 80_000, 20));
    cfg.stage("bulk", cfg.q(400, 20_000), 5., naive, bulk);
    cfg.finish(
        "random histories of creation, copies, views (also of views), in-place addition, subtraction and scaling (same, shared and summed batches, by reference and by value, also on parameter values and gradients), resets, shape changes, replacement, moves to devices, nodes and drops, with compatible and incompatible shapes, devices and states; after every step every tensor's shape, buffer and values are compared with the model",
        &["where a source's samples are summed into one, any order of summation is accepted"],
    )
}
