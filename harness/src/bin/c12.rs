//! C12: update rules of the optimizers.
use hcore::ops::naive;
use hcore::optm::*;
use hcore::util::*;

fn main() {
    let cfg = Cfg::from_args();
    let short = Features { extra: false, steps: 12, elements: 30 };
    cfg.stage("short", cfg.q(60_000, 2_000_000), 12., naive, |d, r, rep| history(*d, &short, r, rep));
    let long = Features { extra: false, steps: 600, elements: 8 };
    cfg.stage("long", cfg.q(1_000, 60_000), 12., naive, |d, r, rep| history(*d, &long, r, rep));
    let large = Features { extra: false, steps: 5, elements: 2000 };
    cfg.stage("large", cfg.q(600, 30_000), 8., naive, |d, r, rep| history(*d, &large, r, rep));
    cfg.finish(
        "training histories of one or two optimizers over 1..6 parameters of random shapes with random gradients (set directly or by backward), subsets, orders, late and repeated configuration, changed step counters, through all update entry points; after every step each value is compared with the published rule applied, with a single-precision error bound, to the value before the step, the gradient and the model's own statistics; 'long' runs up to 600 steps",
        &["optimizers of one kind share the statistics of a parameter"],
    )
}
