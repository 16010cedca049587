//! Histories of tensors, copies, views and in-place updates, with a model of every tensor.
use crate::gen;
use crate::ops::Dev;
use crate::refm::*;
use crate::util::*;
use crate::ensure;
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicFunctions};
use prima_undine::{Node, Parameter, Tensor};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    /// no buffer
    Empty,
    /// contents never set
    Junk,
    Val(Vec<f32>),
    Host(Vec<f32>),
}
enum Own {
    T(Box<Tensor<'static>>),
    /// part of a parameter
    P(usize, u8),
}
pub struct Slot {
    own: Own,
    pub s: Sh,
    pub m: M,
    pub dev: usize,
    pub of: Option<usize>,
    pub views: u32,
}
pub struct World {
    devs: Vec<Dev>,
    pub slots: BTreeMap<usize, Slot>,
    params: Vec<Box<Parameter<'static>>>,
    next: usize,
    pub log: Vec<String>,
    /// integers with exact sums
    pub exact: bool,
    /// zeros of both signs, infinities, NaN and subnormal numbers among the values
    pub odd: bool,
    /// reads all tensors back after each step
    pub watch: bool,
    pub max: u64,
}

impl Drop for World {
    fn drop(&mut self) {
        // views first
        let mut ids: Vec<usize> = self.slots.keys().copied().collect();
        ids.sort();
        ids.reverse();
        for i in ids {
            self.slots.remove(&i);
        }
    }
}

fn h(t: &Tensor) -> usize {
    t.handle().load(Ordering::SeqCst) as usize
}
pub fn same(a: &[f32], b: &[f32]) -> bool {
    // the sign of zero counts, the payload of a NaN does not
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan())
}

impl World {
    pub fn new(devs: &[Dev], exact: bool, max: u64) -> World {
        World { devs: devs.to_vec(), slots: BTreeMap::new(), params: vec![], next: 0, log: vec![], exact, odd: false, watch: true, max }
    }
    pub fn t(&self, i: usize) -> &'static Tensor<'static> {
        let s = &self.slots[&i];
        let p: *const Tensor<'static> = match &s.own {
            Own::T(b) => &**b,
            Own::P(k, 0) => &self.params[*k].value,
            Own::P(k, _) => &self.params[*k].gradient,
        };
        unsafe { &*p }
    }
    fn tm(&mut self, i: usize) -> &'static mut Tensor<'static> {
        let p: *mut Tensor<'static> = match &mut self.slots.get_mut(&i).unwrap().own {
            Own::T(b) => &mut **b,
            Own::P(k, w) => {
                let (k, w) = (*k, *w);
                if w == 0 {
                    &mut self.params[k].value
                } else {
                    &mut self.params[k].gradient
                }
            }
        };
        unsafe { &mut *p }
    }
    fn put(&mut self, t: Tensor<'static>, s: Sh, m: M, dev: usize, of: Option<usize>) -> usize {
        let i = self.next;
        self.next += 1;
        if let Some(o) = of {
            self.slots.get_mut(&o).unwrap().views += 1;
        }
        self.slots.insert(i, Slot { own: Own::T(Box::new(t)), s, m, dev, of, views: 0 });
        i
    }
    fn gone(&mut self, i: usize) {
        let s = self.slots.remove(&i).unwrap();
        if let Some(o) = s.of {
            self.slots.get_mut(&o).unwrap().views -= 1;
        }
    }
    fn number(&self, r: &mut Rng) -> f32 {
        if self.odd && r.chance(0.3) {
            return *r.pick(&[0., -0., 0., -0., 1., -1., f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-41, -1e-41, f32::MIN_POSITIVE]);
        }
        if self.exact {
            r.range(-9, 9) as f32
        } else {
            r.uni(-3., 3.) as f32
        }
    }
    fn numbers(&self, r: &mut Rng, n: usize) -> Vec<f32> {
        (0..n).map(|_| self.number(r)).collect()
    }
    fn pick<F: Fn(&Slot) -> bool>(&self, r: &mut Rng, f: F) -> Option<usize> {
        let c: Vec<usize> = self.slots.iter().filter(|(_, s)| f(s)).map(|(i, _)| *i).collect();
        if c.is_empty() {
            None
        } else {
            Some(*r.pick(&c))
        }
    }
    fn some_shape(&self, r: &mut Rng) -> Sh {
        if r.chance(0.6) {
            if let Some(i) = self.pick(r, |_| true) {
                let s = self.slots[&i].s;
                return match r.below(6) {
                    0 => s.with_b(1),
                    1 => gen::shrink(r, s.with_b(2), self.max),
                    2 => gen::same_size(r, s.size()),
                    3 => {
                        let m = gen::mutate_shape(r, s);
                        let m = Sh { d: m.d.map(|x| x.max(1)), b: m.b.max(1) };
                        if m.fits() { gen::shrink(r, m, self.max) } else { s }
                    }
                    _ => s,
                };
            }
        }
        gen::shape(r, self.max)
    }
    fn fresh(&mut self, r: &mut Rng, s: Sh, dev: usize) -> usize {
        let v = self.numbers(r, s.n());
        let d = self.devs[dev];
        self.put(d.new_tensor_by_slice(s.real(), &v), s, M::Val(v), dev, None)
    }

    /// The mutable destinations: nothing borrows them.
    fn dest(&self, r: &mut Rng) -> Option<usize> {
        self.pick(r, |s| s.views == 0)
    }

    fn same_dev(&self, a: usize, b: usize) -> bool {
        self.slots[&a].dev == self.slots[&b].dev
    }

    /// One random action. Err: the model was contradicted.
    pub fn step(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let what = r.below(20);
        let full = self.slots.len() >= 10;
        let res = match what {
            0 | 1 if !full => self.create(r, rep),
            2 if !full => self.copy(r, rep),
            3 | 4 if !full => self.view(r, rep),
            5 => self.drop_one(r, rep),
            6..=10 => self.assign(r, rep),
            11 => self.scale(r, rep),
            12 | 13 => self.reset(r, rep),
            14 => self.reshape(r, rep),
            15 | 16 => self.replace(r, rep),
            17 => self.moves(r, rep),
            18 => self.node(r, rep),
            _ => self.arith(r, rep),
        };
        res.map_err(|e| format!("{} ({})", e, self.log.join("; ")))?;
        if self.watch {
            self.check().map_err(|e| format!("{} ({})", e, self.log.join("; ")))?;
        }
        Ok(())
    }

    /// All tensors against the model.
    pub fn check(&self) -> Result<(), String> {
        let mut owners = BTreeMap::new();
        for (&i, s) in &self.slots {
            let t = self.t(i);
            ensure!(Sh::of(t.shape()) == s.s, "t{} has shape {:?}, expected {:?}", i, t.shape(), s.s);
            ensure!(t.shape() == s.s.real(), "t{} has shape {:?}, expected {:?}", i, t.shape(), s.s);
            match &s.m {
                M::Empty => ensure!(!t.valid(), "t{} should have no buffer", i),
                M::Host(_) => ensure!(!t.valid(), "t{} should have no buffer", i),
                M::Junk => ensure!(t.valid(), "t{} should have a buffer", i),
                M::Val(v) => {
                    ensure!(t.valid(), "t{} should have a buffer", i);
                    let w = catch(|| t.to_vec()).map_err(|e| format!("reading t{} panicked: {}", i, e))?;
                    ensure!(same(&w, v), "t{} of shape {:?} holds {:?}, expected {:?}", i, s.s, w, v);
                }
            }
            if let Some(o) = s.of {
                ensure!(h(t) == h(self.t(o)), "the view t{} has another buffer than t{}", i, o);
            } else if t.valid() {
                if let Some(j) = owners.insert(h(t), i) {
                    return Err(format!("t{} and t{} own the same buffer", i, j));
                }
            }
        }
        Ok(())
    }

    fn create(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let s = self.some_shape(r);
        let dev = if r.chance(0.85) { 0 } else { self.devs.len() - 1 };
        let d = self.devs[dev];
        let i = match r.below(8) {
            0 => {
                let k = self.number(r);
                self.put(d.new_tensor_by_constant(s.real(), k), s, M::Val(vec![k; s.n()]), dev, None)
            }
            1 => self.put(d.new_tensor(s.real()), s, M::Empty, dev, None),
            2 => {
                let mut t = d.new_tensor(s.real());
                t.alloc();
                self.put(t, s, M::Junk, dev, None)
            }
            3 => {
                let v = self.numbers(r, s.n());
                self.put(Tensor::new_host_tensor(s.real(), v.clone()), s, M::Host(v), usize::MAX, None)
            }
            4 if self.params.len() < 2 => {
                let s = s.with_b(1);
                let v = self.numbers(r, s.n());
                let g = self.numbers(r, s.n());
                let p = Parameter::new(d.new_tensor_by_slice(s.real(), &v), d.new_tensor_by_slice(s.real(), &g));
                self.params.push(Box::new(p));
                let k = self.params.len() - 1;
                for (w, v) in [(0, v), (1, g)] {
                    let i = self.next;
                    self.next += 1;
                    self.slots.insert(i, Slot { own: Own::P(k, w), s, m: M::Val(v), dev, of: None, views: 0 });
                }
                self.next - 1
            }
            _ => self.fresh(r, s, dev),
        };
        self.log.push(format!("t{} = new {:?} {:?}", i, s, short(&self.slots[&i].m)));
        rep.count("create");
        Ok(())
    }

    fn copy(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let i = match self.pick(r, |s| s.m != M::Junk) {
            Some(i) => i,
            None => return Ok(()),
        };
        let s = self.slots[&i].s;
        let t = self.t(i);
        let dev = r.us(self.devs.len());
        let dev = if r.chance(0.8) && self.slots[&i].dev < self.devs.len() { self.slots[&i].dev } else { dev };
        let ok = matches!(self.slots[&i].m, M::Val(_)) && dev == self.slots[&i].dev;
        let d = self.devs[dev];
        let via_param = match &self.slots[&i].own {
            Own::P(k, 0) if r.chance(0.5) => Some(*k),
            _ => None,
        };
        let c = match via_param {
            Some(k) => {
                let p: &'static mut Parameter<'static> = unsafe { &mut *(&mut *self.params[k] as *mut _) };
                catch(|| Tensor::from(p))
            }
            None => catch(|| d.copy_tensor(t)),
        };
        let ok = ok || via_param.is_some();
        self.log.push(format!("copy of t{}{}", i, if ok { "" } else { " (refused)" }));
        match c {
            Ok(c) => {
                ensure!(ok, "a copy of t{} ({:?}) on device {} was made, although it is on device {}", i, short(&self.slots[&i].m), dev, self.slots[&i].dev);
                let m = self.slots[&i].m.clone();
                let dv = self.slots[&i].dev;
                let n = self.put(c, s, m, dv, None);
                ensure!(h(self.t(n)) != h(t), "the copy shares the buffer of its source");
                self.log.push(format!("= t{}", n));
                rep.count("copy");
            }
            Err(e) => {
                ensure!(!ok, "copying t{} panicked: {}", i, e);
                rep.count("refused");
            }
        }
        Ok(())
    }

    fn view(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let i = match self.pick(r, |_| true) {
            Some(i) => i,
            None => return Ok(()),
        };
        let t = self.t(i);
        let s = self.slots[&i].s;
        let has = matches!(self.slots[&i].m, M::Val(_) | M::Junk);
        let (ok, v, txt) = if r.chance(0.7) || self.slots[&i].dev >= self.devs.len() {
            (has, catch(|| Tensor::from(t)), "view")
        } else {
            // into an existing tensor of maybe another shape or device
            let s2 = if r.chance(0.8) { s } else { self.some_shape(r) };
            let dev = if r.chance(0.8) { self.slots[&i].dev } else { r.us(self.devs.len()) };
            let d = self.devs[dev];
            let mut v = d.new_tensor(s2.real());
            let full = r.chance(0.1);
            if full {
                v.alloc();
            }
            let ok = has && !full && s2 == s && dev == self.slots[&i].dev;
            let res = catch(|| v.refer(t));
            if res.is_err() && !full {
                ensure!(!v.valid(), "a refused view of t{} has a buffer", i);
            }
            (ok, res.map(|_| v), "refer")
        };
        self.log.push(format!("{} of t{}{}", txt, i, if ok { "" } else { " (refused)" }));
        match v {
            Ok(v) => {
                ensure!(ok, "a view of t{} ({:?}) was made", i, short(&self.slots[&i].m));
                let m = self.slots[&i].m.clone();
                let dev = self.slots[&i].dev;
                let n = self.put(v, s, m, dev, Some(i));
                self.log.push(format!("= t{}", n));
                rep.count("view");
                if self.slots[&i].of.is_some() {
                    rep.count("view_of_view");
                }
            }
            Err(e) => {
                ensure!(!ok, "a view of t{} panicked: {}", i, e);
                rep.count("refused");
            }
        }
        Ok(())
    }

    fn drop_one(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        if let Some(i) = self.pick(r, |s| s.views == 0 && matches!(s.own, Own::T(_))) {
            self.log.push(format!("drop t{}{}", i, if self.slots[&i].of.is_some() { " (view)" } else { "" }));
            self.gone(i);
            rep.count("drop");
        }
        Ok(())
    }

    /// dest += src or dest -= src
    fn assign(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let d = match self.dest(r) {
            Some(d) => d,
            None => return Ok(()),
        };
        // a view of the destination cannot be its source
        let s = match self.pick(r, |_| true) {
            Some(s) if s != d && r.chance(0.5) && self.slots[&d].of != Some(s) => s,
            _ => {
                if self.slots.len() >= 12 {
                    return Ok(());
                }
                let ds = self.slots[&d].s;
                let s = match r.below(8) {
                    0..=2 => ds,
                    3 => ds.with_b(1),
                    4 | 5 => {
                        let b = if ds.b == 1 { gen::batch(r) } else { ds.b };
                        if ds.vol() * b as u64 <= 4 * self.max { ds.with_b(b) } else { ds }
                    }
                    _ => self.some_shape(r),
                };
                let dev = if r.chance(0.9) && self.slots[&d].dev < self.devs.len() { self.slots[&d].dev } else { r.us(self.devs.len()) };
                self.fresh(r, s, dev)
            }
        };
        if self.root(d) == self.root(s) {
            return Ok(()); // both views of one tensor
        }
        let minus = r.chance(0.5);
        let (ss, ds) = (self.slots[&s].s, self.slots[&d].s);
        let view = self.slots[&d].of.is_some();
        let ok = self.same_dev(s, d) && ss.same_dims(&ds) && ss.compat(&ds) && matches!(self.slots[&s].m, M::Val(_)) && matches!(self.slots[&d].m, M::Val(_)) && !view;
        if !ok && (self.slots[&d].m == M::Junk || self.slots[&s].m == M::Junk) {
            return Ok(());
        }
        let style = r.below(3);
        let by_value = style == 0 && self.slots[&s].views == 0 && self.slots[&s].of.is_none() && matches!(self.slots[&s].own, Own::T(_));
        let (a, b) = (self.t(s), self.tm(d));
        let txt = format!("t{} {} t{}{}{}", d, if minus { "-=" } else { "+=" }, s, if by_value { " (moved)" } else { "" }, if ok { "" } else { " (refused)" });
        self.log.push(txt.clone());
        let before = if self.exact || !ok { None } else { Some(catch(|| if minus { &*b - a } else { &*b + a })) };
        let res = if by_value {
            let slot = self.slots.remove(&s).unwrap();
            let t = match slot.own {
                Own::T(t) => *t,
                _ => unreachable!(),
            };
            let m = slot.m.clone();
            let res = catch(|| if minus { *b -= t } else { *b += t });
            (res, m)
        } else {
            let res = catch(|| match (style, minus) {
                (1, true) => *b -= a,
                (1, false) => *b += a,
                (_, true) => b.device().sub_assign(a, b),
                (_, false) => b.device().add_assign(a, b),
            });
            (res, self.slots[&s].m.clone())
        };
        let (res, sm) = res;
        if ok {
            res.map_err(|e| format!("{} panicked: {} (shapes {:?} and {:?})", txt, e, ds, ss))?;
            let (x, y) = match (&sm, &self.slots[&d].m) {
                (M::Val(x), M::Val(y)) => (x.clone(), y.clone()),
                _ => unreachable!(),
            };
            let vol = ds.vol() as usize;
            let sg = if minus { -1. } else { 1. };
            let new: Vec<f32>;
            if ss.b > 1 && ds.b == 1 {
                let w = self.tm(d).to_vec();
                for i in 0..vol {
                    let mut t = y[i] as f64;
                    let mut a = t.abs();
                    for k in 0..ss.b as usize {
                        t += sg * x[k * vol + i] as f64;
                        a += x[k * vol + i].abs() as f64;
                    }
                    let tol = if self.exact { 0. } else { a * (ss.b as f64 + 2.) * 1.2e-7 };
                    let q = w[i] as f64;
                    ensure!((q - t).abs() <= tol || q == t || q.is_nan() && t.is_nan(), "{}: element {} is {}, expected {}", txt, i, w[i], t);
                }
                rep.count("assign_summed");
                new = w;
            } else {
                new = (0..y.len())
                    .map(|i| {
                        let z = x[if ss.b == 1 { i % vol } else { i }];
                        if minus { y[i] - z } else { y[i] + z }
                    })
                    .collect();
                if let Some(before) = before {
                    let before = before.map_err(|e| format!("out-of-place arithmetic panicked: {}", e))?;
                    ensure!(same(&before.to_vec(), &new), "{}: out of place gives {:?}, expected {:?}", txt, before.to_vec(), new);
                }
                rep.count(if ss.b == ds.b { "assign" } else { "assign_shared" });
            }
            self.slots.get_mut(&d).unwrap().m = M::Val(new);
            rep.distinct(&(ss, ds, minus));
        } else {
            // nothing may be written through a view; whether the call panics is seen by the values
            ensure!(res.is_err() || view, "{} was accepted: shapes {:?} and {:?}, devices {} and {}", txt, ds, ss, self.slots[&d].dev, self.slots.get(&s).map(|s| s.dev).unwrap_or(9));
            rep.count("refused");
        }
        Ok(())
    }
    fn root(&self, mut i: usize) -> usize {
        while let Some(o) = self.slots[&i].of {
            i = o;
        }
        i
    }

    fn scale(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let d = match self.dest(r) {
            Some(d) if self.slots[&d].m != M::Junk => d,
            _ => return Ok(()),
        };
        let k = if self.exact || r.chance(0.3) { *r.pick(&[-2f32, -1., 0., -0., 1., 2., 3.]) } else { self.number(r) };
        let view = self.slots[&d].of.is_some();
        let ok = matches!(self.slots[&d].m, M::Val(_)) && !view;
        self.log.push(format!("t{} *= {}{}", d, k, if ok { "" } else { " (refused)" }));
        let t = self.tm(d);
        let direct = r.chance(0.3);
        let res = catch(|| if direct { t.device().mul_assign_const(k, t) } else { *t *= k });
        if ok {
            res.map_err(|e| format!("*= panicked: {}", e))?;
            if let M::Val(v) = &mut self.slots.get_mut(&d).unwrap().m {
                v.iter_mut().for_each(|x| *x *= k);
                let v = v.clone();
                let w = self.t(d).to_vec();
                ensure!(same(&w, &v), "t{} *= {} gives {:?}, expected {:?}", d, k, w, v);
            }
            if let M::Val(v) = &mut self.slots.get_mut(&d).unwrap().m {
                let big = v.iter().any(|x| x.abs() > 1e5);
                if big {
                    let z = vec![0.; v.len()];
                    *v = z;
                    self.tm(d).reset(0.);
                }
            }
            rep.count("scale");
        } else {
            ensure!(res.is_err() || view, "t{} *= {} was accepted: {:?}", d, k, short(&self.slots[&d].m));
            rep.count("refused");
        }
        Ok(())
    }

    fn reset(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let d = match self.dest(r) {
            Some(d) => d,
            _ => return Ok(()),
        };
        let ds = self.slots[&d].s;
        let view = self.slots[&d].of.is_some();
        let mut ok = matches!(self.slots[&d].m, M::Val(_) | M::Junk) && !view;
        let way = r.below(4);
        let t = self.tm(d);
        let dev = if self.slots[&d].dev < self.devs.len() && r.chance(0.9) { self.slots[&d].dev } else { r.us(self.devs.len()) };
        let (res, new, txt) = match way {
            0 | 1 => {
                let k = self.number(r);
                let zero = way == 1 && matches!(self.slots[&d].own, Own::P(_, 1));
                if zero {
                    if let Own::P(p, _) = self.slots[&d].own {
                        let p: *mut Parameter = &mut *self.params[p];
                        (catch(|| unsafe { (*p).reset_gradient() }), vec![0.; ds.n()], "reset_gradient".to_string())
                    } else {
                        unreachable!()
                    }
                } else if way == 0 {
                    (catch(|| t.reset(k)), vec![k; ds.n()], format!("reset({})", k))
                } else {
                    ok &= dev == self.slots[&d].dev;
                    let dv = self.devs[dev];
                    (catch(|| dv.reset_tensor(t, k)), vec![k; ds.n()], format!("reset_tensor({})", k))
                }
            }
            2 => {
                let n = if r.chance(0.85) { ds.n() } else { (ds.n() as i64 + r.range(-2, 3)).max(0) as usize };
                let v = self.numbers(r, n);
                ok &= dev == self.slots[&d].dev && n == ds.n();
                let dv = self.devs[dev];
                (catch(|| dv.reset_tensor_by_slice(t, &v)), v, format!("reset_tensor_by_slice({} values)", n))
            }
            _ => {
                let s = match self.pick(r, |_| true) {
                    Some(s) if s != d && self.root(s) != self.root(d) => s,
                    _ => return Ok(()),
                };
                let ss = self.slots[&s].s;
                if (ss != ds && ss.size() == ds.size()) || self.slots[&s].m == M::Junk {
                    return Ok(());
                }
                ok &= dev == self.slots[&d].dev && self.same_dev(s, d) && ss == ds && matches!(self.slots[&s].m, M::Val(_));
                let v = match &self.slots[&s].m {
                    M::Val(v) => v.clone(),
                    _ => vec![],
                };
                let dv = self.devs[dev];
                let a = self.t(s);
                (catch(|| dv.reset_tensor_by_tensor(t, a)), v, format!("reset_tensor_by_tensor(t{})", s))
            }
        };
        self.log.push(format!("t{}.{}{}", d, txt, if ok { "" } else { " (refused)" }));
        if ok {
            res.map_err(|e| format!("t{}.{} panicked: {}", d, txt, e))?;
            let s = self.slots.get_mut(&d).unwrap();
            s.m = M::Val(new);
            rep.count("reset");
        } else {
            ensure!(res.is_err() || view, "t{}.{} was accepted: shape {:?} {:?}", d, txt, ds, short(&self.slots[&d].m));
            rep.count("refused");
        }
        Ok(())
    }

    fn reshape(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let d = match self.pick(r, |s| s.views == 0 && matches!(s.own, Own::T(_))) {
            Some(d) => d,
            _ => return Ok(()),
        };
        let ds = self.slots[&d].s;
        let s = if r.chance(0.75) { gen::same_size(r, ds.size()) } else { self.some_shape(r) };
        let ok = s.size() == ds.size();
        self.log.push(format!("t{}.update_shape({:?}){}", d, s, if ok { "" } else { " (refused)" }));
        let t = self.tm(d);
        let res = catch(|| t.update_shape(s.real()));
        if ok {
            res.map_err(|e| format!("t{}.update_shape({:?}) panicked: {}", d, s, e))?;
            self.slots.get_mut(&d).unwrap().s = s;
            rep.count("update_shape");
        } else {
            ensure!(res.is_err(), "t{} of shape {:?} took shape {:?}", d, ds, s);
            rep.count("refused");
        }
        Ok(())
    }

    fn replace(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let d = match r.chance(0.5) {
            true => self.pick(r, |s| s.views == 0 && s.m == M::Empty),
            false => self.dest(r),
        };
        let d = match d {
            Some(d) => d,
            None => {
                let s = self.some_shape(r);
                let t = self.devs[0].new_tensor(s.real());
                self.put(t, s, M::Empty, 0, None)
            }
        };
        let o = match self.pick(r, |s| s.views == 0 && matches!(s.own, Own::T(_))) {
            Some(o) if o != d && r.chance(0.5) => o,
            _ => {
                let s = self.slots[&d].s;
                let dev = if r.chance(0.9) && self.slots[&d].dev < self.devs.len() { self.slots[&d].dev } else { r.us(self.devs.len()) };
                self.fresh(r, s, dev)
            }
        };
        if self.slots[&o].of == Some(d) || self.slots[&d].of == Some(o) {
            return Ok(());
        }
        let (ds, os) = (self.slots[&d].s, self.slots[&o].s);
        let ok = self.slots[&d].m == M::Empty && ds == os && self.same_dev(d, o) && self.slots[&o].of.is_none() && !matches!(self.slots[&o].m, M::Host(_));
        let m = self.slots[&o].m.clone();
        self.log.push(format!("t{}.replace(t{}){}", d, o, if ok { "" } else { " (refused)" }));
        let ho = h(self.t(o));
        let slot = self.slots.remove(&o).unwrap();
        if let Some(q) = slot.of {
            self.slots.get_mut(&q).unwrap().views -= 1;
        }
        let t = match slot.own {
            Own::T(t) => *t,
            _ => unreachable!(),
        };
        let dt = self.tm(d);
        let res = catch(|| dt.replace(t));
        if ok {
            res.map_err(|e| format!("replace panicked: {}", e))?;
            ensure!(h(dt) == ho, "replace did not move the buffer");
            self.slots.get_mut(&d).unwrap().m = m;
            rep.count("replace");
        } else {
            ensure!(res.is_err(), "t{} ({:?}, shape {:?}) was replaced by t{} ({:?}, shape {:?})", d, short(&self.slots[&d].m), ds, o, short(&m), os);
            rep.count("refused");
        }
        Ok(())
    }

    fn moves(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let d = match self.pick(r, |s| s.views == 0 && matches!(s.own, Own::T(_)) && (matches!(s.m, M::Host(_)) || s.dev % 7 == 0)) {
            Some(d) => d,
            _ => return Ok(()),
        };
        let t = self.tm(d);
        if r.chance(0.3) {
            let ok = self.slots[&d].m == M::Empty;
            self.log.push(format!("t{}.alloc(){}", d, if ok { "" } else { " (refused)" }));
            let res = catch(|| t.alloc());
            if ok {
                res.map_err(|e| format!("alloc panicked: {}", e))?;
                self.slots.get_mut(&d).unwrap().m = M::Junk;
            } else {
                ensure!(res.is_err(), "t{}.alloc() was accepted: {:?}", d, short(&self.slots[&d].m));
                rep.count("refused");
            }
            return Ok(());
        }
        let dev = r.us(self.devs.len());
        let dv = self.devs[dev];
        let ok = matches!(self.slots[&d].m, M::Host(_));
        self.log.push(format!("t{}.move_to_device({}){}", d, dev, if ok { "" } else { " (refused)" }));
        let res = catch(|| t.move_to_device(dv));
        if ok {
            res.map_err(|e| format!("move_to_device panicked: {}", e))?;
            let s = self.slots.get_mut(&d).unwrap();
            if let M::Host(v) = &s.m {
                s.m = M::Val(v.clone());
            }
            s.dev = dev;
            rep.count("move_to_device");
        } else {
            ensure!(res.is_err(), "t{}.move_to_device was accepted: {:?}", d, short(&self.slots[&d].m));
            rep.count("refused");
        }
        Ok(())
    }

    /// Reading through a node.
    fn node(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let i = match self.pick(r, |s| matches!(s.m, M::Val(_))) {
            Some(i) => i,
            None => return Ok(()),
        };
        let t = self.t(i);
        let v = match &self.slots[&i].m {
            M::Val(v) => v.clone(),
            _ => unreachable!(),
        };
        self.log.push(format!("node of t{}", i));
        let n = Node::from(t);
        ensure!(Sh::of(n.shape()) == self.slots[&i].s, "a node of t{} has shape {:?}", i, n.shape());
        n.forward();
        ensure!(h(&n.inner_value()) == h(t), "a node of t{} copied the tensor", i);
        ensure!(same(&n.to_vec(), &v), "a node of t{} holds {:?}, expected {:?}", i, n.to_vec(), v);
        let m = &n * 2.;
        m.backward();
        let w: Vec<f32> = v.iter().map(|x| x * 2.).collect();
        ensure!(same(&m.to_vec(), &w), "twice t{} is {:?}", i, m.to_vec());
        rep.count("node");
        Ok(())
    }

    /// Out-of-place arithmetic on tensors and views.
    fn arith(&mut self, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
        let a = match self.pick(r, |s| matches!(s.m, M::Val(_))) {
            Some(i) => i,
            None => return Ok(()),
        };
        let (sa, da) = (self.slots[&a].s, self.slots[&a].dev);
        let b = match self.pick(r, |s| matches!(s.m, M::Val(_)) && s.s == sa && s.dev == da) {
            Some(i) => i,
            None => return Ok(()),
        };
        if self.slots.len() >= 12 {
            return Ok(());
        }
        let (x, z) = match (&self.slots[&a].m, &self.slots[&b].m) {
            (M::Val(x), M::Val(z)) => (x.clone(), z.clone()),
            _ => unreachable!(),
        };
        // operands by reference, or by value as views or copies
        let c = self.number(r);
        let op = r.us(4);
        let (va, vb) = (r.us(3), r.us(3));
        let form = r.us(4);
        let own = |w: usize, i: usize| -> Tensor<'static> {
            let t = self.t(i);
            if w == 1 { Tensor::from(t) } else { t.device().copy_tensor(t) }
        };
        let (ta, tb) = (self.t(a), self.t(b));
        macro_rules! binary {
            ( $l:expr, $r:expr ) => {
                match op {
                    0 => $l + $r,
                    1 => $l - $r,
                    2 => $l * $r,
                    _ => $l / $r,
                }
            };
        }
        let y = catch(|| match (form, va, vb) {
            (0, 0, 0) => binary!(ta, tb),
            (0, 0, _) => binary!(ta, own(vb, b)),
            (0, _, 0) => binary!(own(va, a), tb),
            (0, _, _) => binary!(own(va, a), own(vb, b)),
            (1, 0, 2) => binary!(ta, &c),
            (1, 0, _) => binary!(ta, c),
            (1, _, 2) => binary!(own(va, a), &c),
            (1, _, _) => binary!(own(va, a), c),
            (2, 0, 2) => binary!(&c, ta),
            (2, 0, _) => binary!(c, ta),
            (2, _, 2) => binary!(&c, own(va, a)),
            (2, _, _) => binary!(c, own(va, a)),
            (_, 0, _) => -ta,
            _ => -own(va, a),
        });
        let name = ["+", "-", "*", "/"][op];
        let how = ["", " (by value, view)", " (by value)"];
        let txt = match form {
            0 => format!("t{}{} {} t{}{}", a, how[va], name, b, how[vb]),
            1 => format!("t{}{} {} {}", a, how[va], name, c),
            2 => format!("{} {} t{}{}", c, name, a, how[va]),
            _ => format!("-t{}{}", a, how[va]),
        };
        let y = y.map_err(|e| format!("{} panicked: {}", txt, e))?;
        let f = |p: f32, q: f32| match op {
            0 => p + q,
            1 => p - q,
            2 => p * q,
            _ => p / q,
        };
        let v: Vec<f32> = match form {
            0 => x.iter().zip(&z).map(|(x, z)| f(*x, *z)).collect(),
            1 => x.iter().map(|x| f(*x, c)).collect(),
            2 => x.iter().map(|x| f(c, *x)).collect(),
            _ => x.iter().map(|x| -x).collect(),
        };
        ensure!(Sh::of(y.shape()) == sa, "{} has shape {:?}, expected {:?}", txt, y.shape(), sa);
        let got = y.to_vec();
        ensure!(same(&got, &v), "{} gives {:?}, expected {:?}", txt, got, v);
        rep.count("arith");
        if self.exact && v.iter().any(|x| x.fract() != 0. || x.abs() > 1e4) || !self.odd && v.iter().any(|x| !(x.abs() < 1e4)) {
            // the sums of the history stay exact
            return Ok(());
        }
        let k = self.put(y, sa, M::Val(v), da, None);
        self.log.push(format!("t{} = {}", k, txt));
        Ok(())
    }
}

fn short(m: &M) -> String {
    match m {
        M::Val(v) | M::Host(v) => {
            let t = format!("{:?}", v);
            let t = if t.len() > 90 { format!("{}...", &t[..90]) } else { t };
            if matches!(m, M::Host(_)) { format!("host {}", t) } else { t }
        }
        m => format!("{:?}", m),
    }
}
