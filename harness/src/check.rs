//! Comparisons.
use crate::refm::*;

pub fn same_bits(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// Values against a reference with error bounds (4 times the bound is allowed).
pub fn close(got: &[f32], want: &RT<Ev>) -> Result<(), String> {
    if got.len() != want.x.len() {
        return Err(format!("{} values, expected {}", got.len(), want.x.len()));
    }
    for (i, (&g, w)) in got.iter().zip(&want.x).enumerate() {
        let g64 = g as f64;
        let tol = 4. * w.e;
        let ok = if w.v.abs() > f32::MAX as f64 {
            !g.is_nan() && g.abs() > 1e38 && (g > 0.) == (w.v > 0.)
        } else {
            g64 == w.v || (g64 - w.v).abs() <= tol
        };
        if !ok {
            return Err(format!("element {} is {}, expected {} (tolerance {:e})", i, g, w.v, tol));
        }
    }
    Ok(())
}

pub fn near(got: &[f32], want: &[f64], tol: &[f64]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} values, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        let d = (got[i] as f64 - want[i]).abs();
        if !(d <= tol[i]) && got[i] as f64 != want[i] {
            return Err(format!("element {} is {}, expected {} (tolerance {:e})", i, got[i], want[i], tol[i]));
        }
    }
    Ok(())
}
