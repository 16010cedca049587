//! A backend that keeps a ledger of its buffers.
use crate::interp::Hook;
use prima_undine::devices::Naive;
use prima_undine::functions::BasicFunctions;
use prima_undine::device_impl::DeviceImpl;
use prima_undine::{Device, Tensor};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};

#[derive(Default)]
pub struct Book {
    /// address of the handle -> number of elements
    pub live: BTreeMap<usize, u64>,
    pub held: u64,
    pub peak: u64,
    pub allocs: u64,
    pub frees: u64,
    pub bad: Vec<String>,
    pub sizes: BTreeMap<u64, u64>,
}
pub struct Ledger {
    book: Mutex<Book>,
    /// Handles are made up: nothing may look at the memory.
    pub fake: bool,
    pub tag: u64,
    pub calls: AtomicU64,
    pub fail: AtomicU64,
}
static FAKE: AtomicU64 = AtomicU64::new(1);

impl Ledger {
    pub fn new(fake: bool) -> Ledger {
        Ledger { book: Mutex::new(Book::default()), fake, tag: 0, calls: AtomicU64::new(0), fail: AtomicU64::new(0) }
    }
    pub fn book(&self) -> MutexGuard<'_, Book> {
        self.book.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn verdict(&self) -> Result<(), String> {
        match self.book().bad.first() {
            Some(m) => Err(m.clone()),
            None => Ok(()),
        }
    }
    pub fn capacity(&self, h: usize) -> Option<u64> {
        self.book().live.get(&h).copied()
    }
    fn look(&self, ts: &[&Tensor], what: &str, name: &str) {
        let mut b = self.book();
        for t in ts {
            let h = t.handle().load(Ordering::SeqCst) as usize;
            if h == 0 {
                continue; // the kernels refuse it
            }
            let n = t.shape().size() as u64;
            let c = b.live.get(&h).copied();
            match c {
                None => b.bad.push(format!("{} got as {} a tensor of shape {:?} whose buffer {:#x} is not a live buffer of this device's backend", name, what, t.shape(), h)),
                Some(c) if c < n => b.bad.push(format!("{} got as {} a tensor of shape {:?} with a buffer of {} elements", name, what, t.shape(), c)),
                _ => {}
            }
        }
    }
    fn distinct(&self, xs: &[&Tensor], y: &Tensor, name: &str) {
        let h = y.handle().load(Ordering::SeqCst) as usize;
        if h != 0 && xs.iter().any(|x| x.handle().load(Ordering::SeqCst) as usize == h) {
            self.book().bad.push(format!("{} writes to the buffer {:#x}, which an operand owns too", name, h));
        }
    }
    fn stop(&self) -> bool {
        !self.book().bad.is_empty()
    }
}
impl Hook for Ledger {
    fn fw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.calls.fetch_add(1, Ordering::SeqCst);
        self.look(xs, "operand", name);
        let y: Vec<&Tensor> = ys.iter().map(|y| &**y).collect();
        self.look(&y, "result", name);
        for (i, y) in y.iter().enumerate() {
            self.distinct(xs, y, name);
            self.distinct(&ys.iter().take(i).map(|y| &**y).collect::<Vec<_>>(), y, name);
        }
        if self.stop() {
            panic!("memory ledger violated");
        }
        if !self.fake {
            d.call_fw_impl(name, xs, u, f, ys)
        }
    }
    fn fw_u32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.look(xs, "operand", name);
        if self.stop() {
            panic!("memory ledger violated");
        }
        if !self.fake {
            d.call_fw_u32_impl(name, xs, u, f, ys)
        }
    }
    fn fw_f32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.look(xs, "operand", name);
        if self.stop() {
            panic!("memory ledger violated");
        }
        if !self.fake {
            d.call_fw_f32_impl(name, xs, u, f, ys)
        }
    }
    fn bw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.calls.fetch_add(1, Ordering::SeqCst);
        self.look(xs, "operand", name);
        self.look(ys, "result", name);
        self.look(gys, "gradient", name);
        self.look(&[&*gx], "destination", name);
        self.distinct(xs, gx, name);
        self.distinct(ys, gx, name);
        self.distinct(gys, gx, name);
        if self.stop() {
            panic!("memory ledger violated");
        }
        if !self.fake {
            d.call_bw_impl(name, xs, ys, gys, u, f, gx)
        }
    }
    fn alloc(&self, size: u32) -> AtomicPtr<c_void> {
        let f = self.fail.load(Ordering::SeqCst);
        if f > 0 && self.fail.fetch_sub(1, Ordering::SeqCst) == 1 {
            panic!("out of memory");
        }
        let h = if self.fake {
            AtomicPtr::new((0x7000_0000_0000u64 + 16 * FAKE.fetch_add(1, Ordering::SeqCst)) as *mut c_void)
        } else {
            Naive {}.new_handle(size)
        };
        let mut b = self.book();
        b.allocs += 1;
        b.held += size as u64;
        b.peak = b.peak.max(b.held);
        *b.sizes.entry(size as u64).or_insert(0) += 1;
        b.live.insert(h.load(Ordering::SeqCst) as usize, size as u64);
        h
    }
    fn free(&self, h: &AtomicPtr<c_void>) {
        let a = h.load(Ordering::SeqCst) as usize;
        {
            let mut b = self.book();
            b.frees += 1;
            match b.live.remove(&a) {
                Some(n) => b.held -= n,
                None => {
                    b.bad.push(format!("the backend was asked to free {:#x}, which is not one of its live buffers", a));
                    return;
                }
            }
        }
        if !self.fake {
            Naive {}.drop_handle(h)
        }
    }
}

/// The ledger as a bare backend without kernels.
pub struct Bare(pub std::sync::Arc<Ledger>);
impl DeviceImpl for Bare {
    fn identifier(&self) -> String {
        "Bare".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        self.0.alloc(size)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        self.0.free(h)
    }
}
