//! Statistical tests with false alarm probabilities below 1e-12 each.

/// Standard normal distribution function (error below 2e-7).
pub fn phi(x: f64) -> f64 {
    let z = x.abs() / std::f64::consts::SQRT_2;
    let t = 1. / (1. + 0.3275911 * z);
    let e = 1. - ((((1.061405429 * t - 1.453152027) * t + 1.421413741) * t - 0.284496736) * t + 0.254829592) * t * (-z * z).exp();
    if x >= 0. {
        0.5 * (1. + e)
    } else {
        0.5 * (1. - e)
    }
}

/// Binomial counts: Chernoff bound on either side.
pub fn binomial(k: u64, n: u64, p: f64, what: &str) -> Result<(), String> {
    if n == 0 {
        return Ok(());
    }
    let q = k as f64 / n as f64;
    let term = |a: f64, b: f64| if a <= 0. { 0. } else if b <= 0. { f64::INFINITY } else { a * (a / b).ln() };
    let kl = term(q, p) + term(1. - q, 1. - p);
    if kl * n as f64 > 32. {
        return Err(format!("{}: {} of {} where the probability is {}", what, k, n, p));
    }
    Ok(())
}

/// Draws that should be independent and uniform in [0, 1] (up to steps of `grain`).
pub fn uniform(u: &[f64], grain: f64, lags: &[usize], what: &str) -> Result<(), String> {
    let n = u.len();
    if n == 0 {
        return Ok(());
    }
    let nf = n as f64;
    if let Some(x) = u.iter().find(|x| !(**x >= -grain && **x <= 1. + grain)) {
        return Err(format!("{}: a value outside of the range ({})", what, x));
    }
    let mut s = u.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut d: f64 = 0.;
    for (i, x) in s.iter().enumerate() {
        d = d.max((i as f64 + 1.) / nf - x).max(x - i as f64 / nf);
    }
    if d > 4.2 / nf.sqrt() + grain + 1e-6 {
        return Err(format!("{}: the distribution of {} values is off by {:.4}", what, n, d));
    }
    // mean and spread
    let m: f64 = u.iter().sum::<f64>() / nf - 0.5;
    if n >= 100 && m.abs() > 8. * (1. / 12f64).sqrt() / nf.sqrt() + grain {
        return Err(format!("{}: the mean of {} values is off by {:.4} of the range", what, n, m));
    }
    if n < 500 || grain > 2e-3 {
        return Ok(());
    }
    for lag in lags {
        let lag = *lag;
        if lag == 0 || lag + 400 > n {
            continue;
        }
        let k = (n - lag) as f64;
        let mut same = 0;
        let (mut c, mut c2) = (0., 0.);
        for i in 0..n - lag {
            let (a, b) = (u[i] - 0.5, u[i + lag] - 0.5);
            same += (a == b) as u64;
            c += a * b * 12.;
            c2 += (a * a * 12. - 1.) * (b * b * 12. - 1.) / 0.8;
        }
        if c.abs() > 9. * k.sqrt() || c2.abs() > 12. * k.sqrt() {
            return Err(format!("{}: values {} positions apart are correlated ({:.3}, {:.3})", what, lag, c / k, c2 / k));
        }
        if same as f64 > 12. + 4. * k * grain.max(1e-7) {
            return Err(format!("{}: {} of {} values are repeated {} positions later", what, same, k, lag));
        }
    }
    Ok(())
}

/// The counts of equally likely parts of [0, 1]; `slack`: error of their borders.
pub fn bins(u: &[f64], n: usize, slack: f64, what: &str) -> Result<(), String> {
    let mut count = vec![0u64; n];
    for x in u {
        count[((x * n as f64) as usize).min(n - 1)] += 1;
    }
    let nf = u.len() as f64;
    for (i, c) in count.iter().enumerate() {
        let (e, c) = (nf / n as f64, *c as f64);
        if (c - e).abs() > 8. * e.sqrt() + 2. * slack * nf + 20. {
            return Err(format!("{}: {} of {} values lie in part {} of {} equally likely ones", what, c, nf, i, n));
        }
    }
    Ok(())
}

/// Draws that should be independent and 1 with probability p, else 0.
pub fn coins(x: &[bool], p: f64, lags: &[usize], what: &str) -> Result<(), String> {
    let n = x.len() as u64;
    let k = x.iter().filter(|b| **b).count() as u64;
    binomial(k, n, p, what)?;
    for lag in lags {
        let lag = *lag;
        if lag == 0 || lag + 200 > x.len() {
            continue;
        }
        // pairs of disjoint positions, so that they are independent
        let (mut both, mut m) = (0, 0);
        let mut i = 0;
        while i + lag < x.len() {
            for j in i..(i + lag).min(x.len() - lag) {
                both += (x[j] == x[j + lag]) as u64;
                m += 1;
            }
            i += 2 * lag;
        }
        binomial(both, m, p * p + (1. - p) * (1. - p), &format!("{}: equal values {} positions apart", what, lag))?;
    }
    Ok(())
}
