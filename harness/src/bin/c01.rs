//! C01: every eager tensor operation against the reference model.
use hcore::gen::{self, Vals};
use hcore::ops::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::{ensure, check};
use prima_undine::functions::BasicFunctions;

fn main() {
    let cfg = Cfg::from_args();
    let all: Vec<&str> = KINDS.iter().copied().collect();
    for (stage, max, vals, quick, secs) in [
        ("values", 300u64, Vals::Plain, 1_500_000u64, 12.),
        ("magnitudes", 200, Vals::Wide, 300_000, 4.),
        ("integers", 300, Vals::Int, 400_000, 4.),
        ("large", 6000, Vals::Plain, 80_000, 5.),
        ("huge", 80_000, Vals::Plain, 6_000, 8.),
    ] {
        cfg.stage(stage, cfg.q(quick, quick * 20), secs, naive, |dev, r, rep| hcore::single::value(*dev, r, rep, &all, max, vals, false));
    }
    cfg.stage("special", cfg.q(300_000, 6_000_000), 5., naive, |dev, r, rep| hcore::single::special(*dev, r, rep, 300));
    cfg.stage("edges", cfg.q(300_000, 6_000_000), 5., naive, |dev, r, rep| hcore::single::edges(*dev, r, rep, 120));
    // to_float and reading back
    cfg.stage("reading", cfg.q(3000, 30_000), 3., naive, |dev, r, rep| {
        let s = gen::shape(r, 400);
        let d: Vec<f32> = (0..s.n()).map(|_| f32::from_bits((r.next() as u32) & 0xbfff_ffff)).collect();
        let t = tensor(*dev, s, &d);
        let back = t.to_vec();
        ensure!(check::same_bits(&back, &d), "to_vec of {:?} changed values", s);
        if s.n() == 1 {
            ensure!(t.to_float().to_bits() == d[0].to_bits(), "to_float");
            rep.count("to_float");
        } else {
            ensure!(catch(|| t.to_float()).is_err(), "to_float of {:?} must be refused", s);
        }
        let k = gen::small_k(r);
        let c = dev.new_tensor_by_constant(s.real(), k);
        ensure!(c.to_vec() == vec![k; s.n()], "constant tensor {:?}", s);
        rep.distinct(&s);
        Ok(())
    });
    cfg.finish(
        "random operation kind (uniform over all tensor operations), valid operand shapes of depth 0..8 with batches, arguments and operand-passing styles; non-trivial: more than one result element; distinct by operation, arguments and shapes",
        &["the reference model in src/ops.rs states the definitions", "single-precision rounding is bounded by src/refm.rs Ev"],
    )
}
