//! The reference model: shapes, and tensors built coordinate by coordinate over an abstract number
//! type (f64 for values, `Ev` for values with a rounding-error bound, `Dual` for exact derivatives,
//! `Mag` for bounds of magnitudes, f32 for conditioning).
use std::cell::Cell;
use std::fmt;

pub const MD: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Sh {
    pub d: [u32; MD],
    pub b: u32,
}
impl fmt::Debug for Sh {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", &self.d[..self.depth()])?;
        if self.b != 1 {
            write!(f, "x{}", self.b)?;
        }
        Ok(())
    }
}
impl Sh {
    pub fn new(d: &[u32], b: u32) -> Sh {
        let mut r = [1; MD];
        r[..d.len()].copy_from_slice(d);
        Sh { d: r, b }
    }
    pub fn scalar() -> Sh {
        Sh::new(&[], 1)
    }
    pub fn depth(&self) -> usize {
        (0..MD).rev().find(|&i| self.d[i] != 1).map_or(0, |i| i + 1)
    }
    pub fn vol(&self) -> u64 {
        self.d.iter().map(|&x| x as u64).fold(1u64, |a, x| a.saturating_mul(x))
    }
    pub fn size(&self) -> u64 {
        self.vol().saturating_mul(self.b as u64)
    }
    pub fn n(&self) -> usize {
        self.size() as usize
    }
    pub fn fits(&self) -> bool {
        self.size() <= u32::MAX as u64
    }
    /// Extent of any dimension, 1 beyond the depth.
    pub fn at(&self, d: u32) -> u32 {
        if (d as usize) < MD {
            self.d[d as usize]
        } else {
            1
        }
    }
    pub fn with(&self, d: u32, n: u32) -> Sh {
        let mut r = *self;
        if d as usize >= MD {
            assert!(n == 1);
            return r;
        }
        r.d[d as usize] = n;
        r
    }
    pub fn with_b(&self, b: u32) -> Sh {
        Sh { d: self.d, b }
    }
    pub fn is_scalar(&self) -> bool {
        self.depth() == 0
    }
    pub fn is_matrix(&self) -> bool {
        self.depth() <= 2
    }
    pub fn same_dims(&self, o: &Sh) -> bool {
        self.d == o.d
    }
    pub fn compat(&self, o: &Sh) -> bool {
        self.b == o.b || self.b == 1 || o.b == 1
    }
    pub fn real(&self) -> prima_undine::Shape {
        prima_undine::Shape::new(&self.d[..self.depth()], self.b)
    }
    pub fn of(s: prima_undine::Shape) -> Sh {
        let mut d = [1; MD];
        for i in 0..MD {
            d[i] = s[i as u32];
        }
        Sh { d, b: s.batch() }
    }
    pub fn index(&self, c: &[u32; MD], b: u32) -> usize {
        let mut i = b as usize;
        for k in (0..MD).rev() {
            i = i * self.d[k] as usize + c[k] as usize;
        }
        i
    }
    /// Calls f with every coordinate, column-major, batch outermost.
    pub fn each<F: FnMut(&[u32; MD], u32)>(&self, mut f: F) {
        for b in 0..self.b {
            let mut c = [0u32; MD];
            'l: loop {
                f(&c, b);
                let mut k = 0;
                loop {
                    if k == MD {
                        break 'l;
                    }
                    c[k] += 1;
                    if c[k] < self.d[k] {
                        break;
                    }
                    c[k] = 0;
                    k += 1;
                }
            }
        }
    }
}

thread_local! {
    /// Set when an operation was evaluated at or near a point where it is not differentiable
    /// (or where its value jumps).
    pub static KINK: Cell<bool> = Cell::new(false);
    /// Slopes above count as not differentiable: rounding errors of the operands would be magnified.
    pub static STEEP: Cell<f64> = Cell::new(60.);
    /// Largest magnitude met by `Mag`.
    pub static MAXMAG: Cell<f64> = Cell::new(0.);
}
pub fn kink() {
    KINK.with(|k| k.set(true));
}
fn steep() -> f64 {
    STEEP.with(|k| k.get())
}
pub fn take_kink() -> bool {
    KINK.with(|k| k.replace(false))
}

pub trait Num: Copy + 'static {
    fn c(x: f64) -> Self;
    fn v(&self) -> f64;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn div(self, o: Self) -> Self;
    fn neg(self) -> Self;
    fn exp(self) -> Self;
    fn ln(self) -> Self;
    fn sqrt(self) -> Self;
    fn sin(self) -> Self;
    fn cos(self) -> Self;
    fn tan(self) -> Self;
    fn tanh(self) -> Self;
    fn sigmoid(self) -> Self;
    fn softplus(self) -> Self;
    fn expm1(self) -> Self;
    fn pow(self, o: Self) -> Self;
    fn powi(self, k: i32) -> Self;
    /// Constant exponent.
    fn powk(self, k: f64) -> Self {
        self.pow(Self::c(k))
    }
    fn abs(self) -> Self;
    fn sum(xs: &[Self]) -> Self {
        let mut s = Self::c(0.);
        for &x in xs {
            s = s.add(x);
        }
        s
    }
    fn lse(xs: &[Self]) -> Self {
        let m = xs.iter().map(|x| x.v()).fold(f64::NEG_INFINITY, f64::max);
        let e: Vec<Self> = xs.iter().map(|x| x.sub(Self::c(m)).exp()).collect();
        Self::sum(&e).ln().add(Self::c(m))
    }
    /// Both branches with the slope below zero.
    fn prelu(self, a: f64) -> Self {
        if self.v().abs() < 1e-3 {
            kink();
        }
        if self.v() > 0. {
            self
        } else {
            self.mul(Self::c(a))
        }
    }
    fn elu(self, a: f64) -> Self {
        if self.v().abs() < 1e-3 {
            kink();
        }
        if self.v() > 0. {
            self
        } else {
            self.expm1().mul(Self::c(a))
        }
    }
}

macro_rules! num_float {
    ($t:ty) => {
        impl Num for $t {
            fn c(x: f64) -> Self {
                x as $t
            }
            fn v(&self) -> f64 {
                *self as f64
            }
            fn add(self, o: Self) -> Self {
                self + o
            }
            fn sub(self, o: Self) -> Self {
                self - o
            }
            fn mul(self, o: Self) -> Self {
                self * o
            }
            fn div(self, o: Self) -> Self {
                self / o
            }
            fn neg(self) -> Self {
                -self
            }
            fn exp(self) -> Self {
                <$t>::exp(self)
            }
            fn ln(self) -> Self {
                <$t>::ln(self)
            }
            fn sqrt(self) -> Self {
                <$t>::sqrt(self)
            }
            fn sin(self) -> Self {
                <$t>::sin(self)
            }
            fn cos(self) -> Self {
                <$t>::cos(self)
            }
            fn tan(self) -> Self {
                <$t>::tan(self)
            }
            fn tanh(self) -> Self {
                <$t>::tanh(self)
            }
            fn sigmoid(self) -> Self {
                if self >= 0. {
                    1. / (1. + <$t>::exp(-self))
                } else {
                    let e = <$t>::exp(self);
                    e / (1. + e)
                }
            }
            fn softplus(self) -> Self {
                <$t>::ln_1p(<$t>::exp(-<$t>::abs(self))) + self.max(0.)
            }
            fn expm1(self) -> Self {
                <$t>::exp_m1(self)
            }
            fn pow(self, o: Self) -> Self {
                <$t>::powf(self, o)
            }
            fn powi(self, k: i32) -> Self {
                <$t>::powi(self, k)
            }
            fn abs(self) -> Self {
                if self.abs() < 1e-3 {
                    kink();
                }
                <$t>::abs(self)
            }
        }
    };
}
num_float!(f64);
num_float!(f32);

/// Value with a bound of the absolute error that single-precision evaluation may make.
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub v: f64,
    pub e: f64,
}
pub const U: f64 = 5.97e-8; // slightly more than 2^-24
fn ev(v: f64, prop: f64, ulps: f64) -> Ev {
    // 1e-37: results near or below the smallest normal number
    let sub = if v != 0. && v.abs() < 1e-37 { 1e-37 } else { 0. };
    Ev { v, e: prop + U * ulps * v.abs() + sub }
}
impl Num for Ev {
    fn c(x: f64) -> Self {
        Ev { v: x, e: 0. }
    }
    fn v(&self) -> f64 {
        self.v
    }
    fn add(self, o: Self) -> Self {
        let v = self.v + o.v;
        if self.e == 0. && o.e == 0. && (v as f32) as f64 == v {
            return Ev { v, e: 0. };
        }
        ev(v, self.e + o.e, 1.)
    }
    fn sub(self, o: Self) -> Self {
        self.add(o.neg())
    }
    fn mul(self, o: Self) -> Self {
        let v = self.v * o.v;
        if self.e == 0. && o.e == 0. && (v as f32) as f64 == v {
            return Ev { v, e: 0. };
        }
        ev(v, self.e * o.v.abs() + o.e * self.v.abs() + self.e * o.e, 1.5)
    }
    fn div(self, o: Self) -> Self {
        let v = self.v / o.v;
        ev(v, (self.e + v.abs() * o.e) / (o.v.abs() - o.e).max(1e-300), 2.5)
    }
    fn neg(self) -> Self {
        Ev { v: -self.v, e: self.e }
    }
    fn exp(self) -> Self {
        let v = self.v.exp();
        ev(v, v * self.e.exp_m1(), 3.)
    }
    fn ln(self) -> Self {
        let v = self.v.ln();
        ev(v, self.e / (self.v - self.e).max(1e-300) , 3.)
    }
    fn sqrt(self) -> Self {
        let v = self.v.sqrt();
        ev(v, if self.e == 0. { 0. } else { self.e / v.max(1e-300) }, 2.)
    }
    fn sin(self) -> Self {
        ev(self.v.sin(), self.e, 3.)
    }
    fn cos(self) -> Self {
        ev(self.v.cos(), self.e, 3.)
    }
    fn tan(self) -> Self {
        let v = self.v.tan();
        let p = self.e * (1. + v * v);
        ev(v, if p * v.abs() > 0.2 { f64::INFINITY } else { 2. * p }, 4.)
    }
    fn tanh(self) -> Self {
        ev(self.v.tanh(), self.e, 5.)
    }
    fn sigmoid(self) -> Self {
        ev(self.v.sigmoid(), self.e * 0.25 + 3. * U, 4.)
    }
    fn softplus(self) -> Self {
        ev(self.v.softplus(), self.e + 3. * U, 4.)
    }
    fn expm1(self) -> Self {
        let v = self.v.exp_m1();
        ev(v, self.v.exp() * self.e.exp_m1() + 3. * U * (1. + self.v.exp()), 3.)
    }
    fn pow(self, o: Self) -> Self {
        let v = self.v.powf(o.v);
        let p = if self.e == 0. && o.e == 0. {
            0.
        } else {
            // the extremes over the possible operands
            let near = |a: f64, b: f64| ((self.v + a * self.e).powf(o.v + b * o.e) - v).abs();
            if self.e >= self.v.abs() {
                if o.e == 0. && o.v >= 1. {
                    (self.v.abs() + self.e).powf(o.v) + v.abs()
                } else {
                    f64::INFINITY
                }
            } else if self.v < 0. {
                near(1., 0.).max(near(-1., 0.))
            } else {
                near(1., 1.).max(near(1., -1.)).max(near(-1., 1.)).max(near(-1., -1.))
            }
        };
        ev(v, p, 4.)
    }
    fn powi(self, k: i32) -> Self {
        let v = self.v.powi(k);
        let near = |a: f64| ((self.v + a * self.e).powi(k) - v).abs();
        let p = if self.e == 0. || k == 0 {
            0.
        } else if k < 0 && self.e >= self.v.abs() {
            f64::INFINITY
        } else {
            near(1.).max(near(-1.)).max(if self.e >= self.v.abs() { v.abs() } else { 0. })
        };
        ev(v, p, 4. + 2. * (k as f64).abs().min(1e9))
    }
    fn abs(self) -> Self {
        if self.v.abs() < 1e-3 {
            kink();
        }
        Ev { v: self.v.abs(), e: self.e }
    }
    fn sum(xs: &[Self]) -> Self {
        let v: f64 = xs.iter().map(|x| x.v).sum();
        let a: f64 = xs.iter().map(|x| x.v.abs()).sum();
        let e: f64 = xs.iter().map(|x| x.e).sum();
        if xs.len() == 1 {
            return xs[0];
        }
        // Exact if every term is a multiple of a common power of two that keeps 24 bits.
        if e == 0. {
            let q = (a.max(1e-30).log2().floor() - 22.).exp2();
            if xs.iter().all(|x| (x.v / q).fract() == 0.) {
                return Ev { v, e: 0. };
            }
        }
        ev(v, e + U * a * xs.len() as f64, 1.)
    }
    fn lse(xs: &[Self]) -> Self {
        if xs.len() == 1 {
            return xs[0];
        }
        let f: Vec<f64> = xs.iter().map(|x| x.v).collect();
        let v = f64::lse(&f);
        let m = f.iter().fold(0f64, |a, x| a.max(x.abs()));
        let e = xs.iter().map(|x| x.e).fold(0., f64::max);
        // Allows accumulation in single precision.
        ev(v, e + U * (m + 2. + (xs.len() as f64).ln()) * (1. + 0.5 * xs.len() as f64), 2.)
    }
}

/// Forward-mode derivative in L directions.
#[derive(Clone, Copy, Debug)]
pub struct Dual<const L: usize> {
    pub v: f64,
    pub d: [f64; L],
}
impl<const L: usize> Dual<L> {
    fn map(self, v: f64, k: f64) -> Self {
        let mut d = self.d;
        for x in d.iter_mut() {
            *x *= k;
        }
        Dual { v, d }
    }
    fn lin(self, o: Self, v: f64, a: f64, b: f64) -> Self {
        let mut d = [0.; L];
        for i in 0..L {
            d[i] = self.d[i] * a + o.d[i] * b;
        }
        Dual { v, d }
    }
}
impl<const L: usize> Num for Dual<L> {
    fn c(x: f64) -> Self {
        Dual { v: x, d: [0.; L] }
    }
    fn v(&self) -> f64 {
        self.v
    }
    fn add(self, o: Self) -> Self {
        self.lin(o, self.v + o.v, 1., 1.)
    }
    fn sub(self, o: Self) -> Self {
        self.lin(o, self.v - o.v, 1., -1.)
    }
    fn mul(self, o: Self) -> Self {
        self.lin(o, self.v * o.v, o.v, self.v)
    }
    fn div(self, o: Self) -> Self {
        self.lin(o, self.v / o.v, 1. / o.v, -self.v / (o.v * o.v))
    }
    fn neg(self) -> Self {
        self.map(-self.v, -1.)
    }
    fn exp(self) -> Self {
        self.map(self.v.exp(), self.v.exp())
    }
    fn ln(self) -> Self {
        self.map(self.v.ln(), 1. / self.v)
    }
    fn sqrt(self) -> Self {
        self.map(self.v.sqrt(), 0.5 / self.v.sqrt())
    }
    fn sin(self) -> Self {
        self.map(self.v.sin(), self.v.cos())
    }
    fn cos(self) -> Self {
        self.map(self.v.cos(), -self.v.sin())
    }
    fn tan(self) -> Self {
        let c = self.v.cos();
        self.map(self.v.tan(), 1. / (c * c))
    }
    fn tanh(self) -> Self {
        let c = self.v.cosh();
        self.map(self.v.tanh(), 1. / (c * c))
    }
    fn sigmoid(self) -> Self {
        let s = self.v.sigmoid();
        self.map(s, s * (-self.v).sigmoid())
    }
    fn softplus(self) -> Self {
        self.map(self.v.softplus(), self.v.sigmoid())
    }
    fn expm1(self) -> Self {
        self.map(self.v.exp_m1(), self.v.exp())
    }
    fn pow(self, o: Self) -> Self {
        let v = self.v.powf(o.v);
        let db = if o.d.iter().all(|&x| x == 0.) { 0. } else { v * self.v.ln() };
        self.lin(o, v, o.v * self.v.powf(o.v - 1.), db)
    }
    fn powi(self, k: i32) -> Self {
        self.map(self.v.powi(k), if k == 0 { 0. } else { k as f64 * self.v.powi(k - 1) })
    }
    fn abs(self) -> Self {
        if self.v.abs() < 1e-3 {
            kink();
        }
        self.map(self.v.abs(), if self.v < 0. { -1. } else { 1. })
    }
    fn lse(xs: &[Self]) -> Self {
        let f: Vec<f64> = xs.iter().map(|x| x.v).collect();
        let v = f64::lse(&f);
        let mut r = Self::c(v);
        for x in xs {
            let p = (x.v - v).exp();
            for i in 0..L {
                r.d[i] += p * x.d[i];
            }
        }
        r
    }
}

/// Value with error bound, derivative in L directions, and the sum of the magnitudes of all path
/// contributions to that derivative.
#[derive(Clone, Copy, Debug)]
pub struct AD<const L: usize> {
    pub e: Ev,
    pub d: [f64; L],
    pub a: [f64; L],
}
impl<const L: usize> AD<L> {
    fn map(self, e: Ev, k: f64) -> Self {
        if !(k.abs() <= steep()) {
            kink();
        }
        let mut r = AD { e, d: self.d, a: self.a };
        let q = k.abs() + 2e4 * self.e.e;
        for i in 0..L {
            r.d[i] *= k;
            r.a[i] *= q;
        }
        r
    }
    fn lin(self, o: Self, e: Ev, p: f64, q: f64) -> Self {
        self.lin2(o, e, p, q, 0., 0.)
    }
    /// ep, eq: errors of the factors
    fn lin2(self, o: Self, e: Ev, p: f64, q: f64, ep: f64, eq: f64) -> Self {
        if !(p.abs() <= steep() && q.abs() <= steep()) {
            kink();
        }
        let mut r = AD { e, d: [0.; L], a: [0.; L] };
        for i in 0..L {
            r.d[i] = self.d[i] * p + o.d[i] * q;
            r.a[i] = self.a[i] * (p.abs() + 1e4 * ep) + o.a[i] * (q.abs() + 1e4 * eq);
        }
        r
    }
}
impl<const L: usize> Num for AD<L> {
    fn c(x: f64) -> Self {
        AD { e: Ev::c(x), d: [0.; L], a: [0.; L] }
    }
    fn v(&self) -> f64 {
        self.e.v
    }
    fn add(self, o: Self) -> Self {
        self.lin(o, self.e.add(o.e), 1., 1.)
    }
    fn sub(self, o: Self) -> Self {
        self.lin(o, self.e.sub(o.e), 1., -1.)
    }
    fn mul(self, o: Self) -> Self {
        self.lin2(o, self.e.mul(o.e), o.e.v, self.e.v, o.e.e, self.e.e)
    }
    fn div(self, o: Self) -> Self {
        let z = o.e.v * o.e.v;
        let q = -self.e.v / z;
        self.lin2(o, self.e.div(o.e), 1. / o.e.v, q, o.e.e / z, self.e.e / z + 2. * q.abs() * o.e.e / o.e.v.abs())
    }
    fn neg(self) -> Self {
        let mut r = self;
        r.e = r.e.neg();
        for x in r.d.iter_mut() {
            *x = -*x;
        }
        r
    }
    fn exp(self) -> Self {
        self.map(self.e.exp(), self.e.v.exp())
    }
    fn ln(self) -> Self {
        self.map(self.e.ln(), 1. / self.e.v)
    }
    fn sqrt(self) -> Self {
        self.map(self.e.sqrt(), 0.5 / self.e.v.sqrt())
    }
    fn sin(self) -> Self {
        self.map(self.e.sin(), self.e.v.cos())
    }
    fn cos(self) -> Self {
        self.map(self.e.cos(), -self.e.v.sin())
    }
    fn tan(self) -> Self {
        let c = self.e.v.cos();
        self.map(self.e.tan(), 1. / (c * c))
    }
    fn tanh(self) -> Self {
        let c = self.e.v.cosh();
        self.map(self.e.tanh(), 1. / (c * c))
    }
    fn sigmoid(self) -> Self {
        let s = self.e.v.sigmoid();
        self.map(self.e.sigmoid(), s * (-self.e.v).sigmoid())
    }
    fn softplus(self) -> Self {
        self.map(self.e.softplus(), self.e.v.sigmoid())
    }
    fn expm1(self) -> Self {
        self.map(self.e.expm1(), self.e.v.exp())
    }
    fn pow(self, o: Self) -> Self {
        let v = self.e.pow(o.e);
        if self.e.v < 3. / steep() {
            kink();
        }
        let db = if o.a.iter().all(|&x| x == 0.) { 0. } else { v.v * self.e.v.ln() };
        self.lin(o, v, o.e.v * self.e.v.powf(o.e.v - 1.), db)
    }
    fn powk(self, k: f64) -> Self {
        if (self.e.v.abs() < 3. / steep() && steep() < 1e9) || (self.e.v == 0. && k < 1. && k != 0.) || (self.e.v < 0. && k.fract() != 0.) {
            kink();
        }
        self.map(self.e.pow(Ev::c(k)), if k == 0. { 0. } else { k * self.e.v.powf(k - 1.) })
    }
    fn powi(self, k: i32) -> Self {
        self.map(self.e.powi(k), if k == 0 { 0. } else { k as f64 * self.e.v.powi(k - 1) })
    }
    fn abs(self) -> Self {
        self.map(self.e.abs(), if self.e.v < 0. { -1. } else { 1. })
    }
    fn sum(xs: &[Self]) -> Self {
        let e: Vec<Ev> = xs.iter().map(|x| x.e).collect();
        let mut r = Self::c(0.);
        r.e = Ev::sum(&e);
        for x in xs {
            for i in 0..L {
                r.d[i] += x.d[i];
                r.a[i] += x.a[i];
            }
        }
        r
    }
    fn lse(xs: &[Self]) -> Self {
        let e: Vec<Ev> = xs.iter().map(|x| x.e).collect();
        let mut r = Self::c(0.);
        r.e = Ev::lse(&e);
        for x in xs {
            let p = (x.e.v - r.e.v).exp();
            for i in 0..L {
                r.d[i] += p * x.d[i];
                r.a[i] += p * x.a[i];
            }
        }
        r
    }
}

/// Bound of the magnitude of values and of all intermediate sums, with derivative bounds.
#[derive(Clone, Copy, Debug)]
pub struct Mag<const L: usize> {
    pub v: f64, // the value itself (drives max, comparisons)
    pub m: f64, // its bound
    pub d: [f64; L],
}
impl<const L: usize> Mag<L> {
    fn note(self) -> Self {
        let m = self.d.iter().fold(self.m, |a, &x| a.max(x));
        MAXMAG.with(|k| {
            if m > k.get() {
                k.set(m)
            }
        });
        self
    }
    fn lin(self, o: Self, v: f64, m: f64, a: f64, b: f64) -> Self {
        let mut d = [0.; L];
        for i in 0..L {
            d[i] = self.d[i] * a + o.d[i] * b;
        }
        Mag { v, m, d }.note()
    }
    fn no(self) -> Self {
        Mag { v: f64::NAN, m: f64::INFINITY, d: [f64::INFINITY; L] }.note()
    }
}
impl<const L: usize> Num for Mag<L> {
    fn c(x: f64) -> Self {
        Mag { v: x, m: x.abs(), d: [0.; L] }
    }
    fn v(&self) -> f64 {
        self.v
    }
    fn add(self, o: Self) -> Self {
        self.lin(o, self.v + o.v, self.m + o.m, 1., 1.)
    }
    fn sub(self, o: Self) -> Self {
        self.lin(o, self.v - o.v, self.m + o.m, 1., 1.)
    }
    fn mul(self, o: Self) -> Self {
        self.lin(o, self.v * o.v, self.m * o.m, o.m, self.m)
    }
    fn neg(self) -> Self {
        Mag { v: -self.v, m: self.m, d: self.d }
    }
    fn powi(self, k: i32) -> Self {
        if k < 0 {
            return self.no();
        }
        let mut r = Self::c(1.);
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    fn abs(self) -> Self {
        if self.v == 0. {
            kink();
        }
        Mag { v: self.v.abs(), m: self.m, d: self.d }
    }
    fn div(self, _: Self) -> Self {
        self.no()
    }
    fn exp(self) -> Self {
        self.no()
    }
    fn ln(self) -> Self {
        self.no()
    }
    fn sqrt(self) -> Self {
        self.no()
    }
    fn sin(self) -> Self {
        self.no()
    }
    fn cos(self) -> Self {
        self.no()
    }
    fn tan(self) -> Self {
        self.no()
    }
    fn tanh(self) -> Self {
        self.no()
    }
    fn sigmoid(self) -> Self {
        self.no()
    }
    fn softplus(self) -> Self {
        self.no()
    }
    fn expm1(self) -> Self {
        self.no()
    }
    fn pow(self, _: Self) -> Self {
        self.no()
    }
}

/// A reference tensor.
#[derive(Clone, Debug)]
pub struct RT<N> {
    pub s: Sh,
    pub x: Vec<N>,
}
impl<N: Num> RT<N> {
    pub fn build<F: FnMut(&[u32; MD], u32) -> N>(s: Sh, mut f: F) -> RT<N> {
        let mut x = Vec::with_capacity(s.n());
        s.each(|c, b| x.push(f(c, b)));
        RT { s, x }
    }
    pub fn from_f32(s: Sh, x: &[f32]) -> RT<N> {
        assert_eq!(s.n(), x.len());
        RT { s, x: x.iter().map(|&v| N::c(v as f64)).collect() }
    }
    /// Element; the batch is shared if there is only one sample.
    pub fn g(&self, c: &[u32; MD], b: u32) -> N {
        let b = if self.s.b == 1 { 0 } else { b };
        self.x[self.s.index(c, b)]
    }
    pub fn map<F: FnMut(N) -> N>(&self, mut f: F) -> RT<N> {
        RT { s: self.s, x: self.x.iter().map(|&v| f(v)).collect() }
    }
    pub fn line(&self, c: &[u32; MD], b: u32, d: u32) -> Vec<N> {
        let mut c = *c;
        (0..self.s.at(d))
            .map(|i| {
                if (d as usize) < MD {
                    c[d as usize] = i;
                }
                self.g(&c, b)
            })
            .collect()
    }
    pub fn reduce<F: FnMut(&[N]) -> N>(&self, d: u32, mut f: F) -> RT<N> {
        let s = self.s.with(d, 1);
        RT::build(s, |c, b| f(&self.line(c, b, d)))
    }
    pub fn sample(&self, b: u32) -> RT<N> {
        let v = self.s.vol() as usize;
        let b = if self.s.b == 1 { 0 } else { b as usize };
        RT { s: self.s.with_b(1), x: self.x[b * v..(b + 1) * v].to_vec() }
    }
}

pub fn zip<N: Num, F: Fn(N, N) -> N>(a: &RT<N>, b: &RT<N>, f: F) -> RT<N> {
    let bb = a.s.b.max(b.s.b);
    let z = [0u32; MD];
    if a.s.is_scalar() {
        RT::build(b.s.with_b(bb), |c, i| f(a.g(&z, i), b.g(c, i)))
    } else if b.s.is_scalar() {
        RT::build(a.s.with_b(bb), |c, i| f(a.g(c, i), b.g(&z, i)))
    } else {
        RT::build(a.s.with_b(bb), |c, i| f(a.g(c, i), b.g(c, i)))
    }
}
