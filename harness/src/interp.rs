//! A backend of our own: forwards every kernel and allocation to the naive one through a hook.
use prima_undine::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::devices::Naive;
use prima_undine::{Device, Tensor};
use std::ffi::c_void;
use std::sync::atomic::AtomicPtr;
use std::sync::Arc;

pub type Inner = Arc<Device<'static>>;

pub trait Hook: Send + Sync + 'static {
    fn fw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        d.call_fw_impl(name, xs, u, f, ys)
    }
    fn fw_u32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        d.call_fw_u32_impl(name, xs, u, f, ys)
    }
    fn fw_f32(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        d.call_fw_f32_impl(name, xs, u, f, ys)
    }
    fn bw(&self, d: &Device<'static>, name: &str, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        d.call_bw_impl(name, xs, ys, gys, u, f, gx)
    }
    fn alloc(&self, size: u32) -> AtomicPtr<c_void> {
        Naive {}.new_handle(size)
    }
    fn free(&self, h: &AtomicPtr<c_void>) {
        Naive {}.drop_handle(h)
    }
}

struct Imp<H>(Arc<H>);
impl<H: Hook> DeviceImpl for Imp<H> {
    fn identifier(&self) -> String {
        "Interposed".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        self.0.alloc(size)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        self.0.free(h)
    }
}

struct K<H> {
    h: Arc<H>,
    d: Inner,
    name: String,
}
impl<H: Hook> FunctionFwImpl for K<H> {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.h.fw(&self.d, &self.name, xs, u, f, ys)
    }
}
impl<H: Hook> FunctionFwU32Impl for K<H> {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.h.fw_u32(&self.d, &self.name, xs, u, f, ys)
    }
}
impl<H: Hook> FunctionFwF32Impl for K<H> {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.h.fw_f32(&self.d, &self.name, xs, u, f, ys)
    }
}
impl<H: Hook> FunctionBwImpl for K<H> {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.h.bw(&self.d, &self.name, xs, ys, gys, u, f, gx)
    }
}

pub fn device<H: Hook>(h: Arc<H>) -> Device<'static> {
    device_without(h, &[])
}

/// Leaves out some kernels.
pub fn device_without<H: Hook>(h: Arc<H>, skip: &[&str]) -> Device<'static> {
    let inner: Inner = Arc::new(Naive::new());
    let mut d = Device::new(Imp(h.clone()));
    let names = inner.verif_kernel_names();
    let k = |name: &str| K { h: h.clone(), d: inner.clone(), name: name.to_string() };
    for n in &names[0] {
        if !skip.contains(&n.as_str()) {
            d.register_fw_impl(n, k(n));
        }
    }
    for n in &names[1] {
        if !skip.contains(&n.as_str()) {
            d.register_fw_u32_impl(n, k(n));
        }
    }
    for n in &names[2] {
        if !skip.contains(&n.as_str()) {
            d.register_fw_f32_impl(n, k(n));
        }
    }
    for n in &names[3] {
        if !skip.contains(&n.as_str()) {
            d.register_bw_impl(n, k(n));
        }
    }
    d
}

pub fn leak(d: Device<'static>) -> &'static Device<'static> {
    Box::leak(Box::new(d))
}
/// Destroys a device made by `leak`.
pub unsafe fn unleak(d: &'static Device<'static>) {
    drop(Box::from_raw(d as *const Device<'static> as *mut Device<'static>))
}
