//! Operations through the functions of a device instead of the methods of a tensor.
use crate::ops::{Dev, Op};
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions};
use prima_undine::Tensor;

/// The operation by the device's own function, if it has one. Binary operations take the variant for a
/// scalar operand where the shapes of the operands ask for it.
pub fn device_call(d: Dev, op: &Op, xs: &[&Tensor<'static>]) -> Option<Vec<Tensor<'static>>> {
    let x = xs[0];
    // 0: none or both scalar, 1: the left operand, 2: the right operand
    let side = || match (xs[0].shape().is_scalar(), xs[1].shape().is_scalar()) {
        (true, false) => 1,
        (false, true) => 2,
        _ => 0,
    };
    let y = match op {
        Op::Add => match side() {
            0 => d.add_fw(x, xs[1]),
            1 => d.add_scalar_fw(xs[1], x),
            _ => d.add_scalar_fw(x, xs[1]),
        },
        Op::Sub => match side() {
            0 => d.sub_fw(x, xs[1]),
            1 => d.sub_scalar_l_fw(xs[1], x),
            _ => d.sub_scalar_r_fw(x, xs[1]),
        },
        Op::Mul => match side() {
            0 => d.mul_fw(x, xs[1]),
            1 => d.mul_scalar_fw(xs[1], x),
            _ => d.mul_scalar_fw(x, xs[1]),
        },
        Op::Div => match side() {
            0 => d.div_fw(x, xs[1]),
            1 => d.div_scalar_l_fw(xs[1], x),
            _ => d.div_scalar_r_fw(x, xs[1]),
        },
        Op::Pow => match side() {
            0 => d.powf_fw(x, xs[1]),
            1 => d.powf_scalar_l_fw(xs[1], x),
            _ => d.powf_scalar_r_fw(x, xs[1]),
        },
        Op::AddK(k) | Op::KAdd(k) => d.add_const_fw(x, *k),
        Op::SubK(k) => d.sub_const_r_fw(x, *k),
        Op::KSub(k) => d.sub_const_l_fw(x, *k),
        Op::MulK(k) | Op::KMul(k) => d.mul_const_fw(x, *k),
        Op::DivK(k) => d.div_const_r_fw(x, *k),
        Op::KDiv(k) => d.div_const_l_fw(x, *k),
        Op::PowK(k) => d.powf_const_r_fw(x, *k),
        Op::KPow(k) => d.powf_const_l_fw(x, *k),
        Op::Powi(k) => d.powi_fw(x, *k),
        Op::Neg => d.neg_fw(x),
        Op::Sqrt => d.sqrt_fw(x),
        Op::Abs => d.abs_fw(x),
        Op::Sin => d.sin_fw(x),
        Op::Cos => d.cos_fw(x),
        Op::Tan => d.tan_fw(x),
        Op::Exp => d.exp_fw(x),
        Op::Ln => d.ln_fw(x),
        Op::Tanh => d.tanh_fw(x),
        Op::Sigmoid => d.sigmoid_fw(x),
        Op::Softplus => d.softplus_fw(x),
        Op::Relu => d.prelu_fw(x, 0.),
        Op::Lrelu => d.prelu_fw(x, 0.01),
        Op::Prelu(k) => d.prelu_fw(x, *k),
        Op::Elu(k) => d.elu_fw(x, *k),
        Op::Sum(n) => d.sum_fw(x, *n),
        Op::Max(n) => d.max_fw(x, *n),
        Op::Min(n) => d.min_fw(x, *n),
        Op::Broadcast(n, s) => d.broadcast_fw(x, *n, *s),
        Op::Lse(n) => d.logsumexp_fw(x, *n),
        Op::Matmul => d.matmul_fw(x, xs[1]),
        Op::Transpose => d.transpose_fw(x),
        Op::TriL(k) => d.triangular_l_fw(x, *k),
        Op::TriU(k) => d.triangular_u_fw(x, *k),
        Op::Slice(n, l, u) => d.slice_fw(x, *n, *l, *u),
        Op::Pick(ids, n) => d.pick_fw(x, ids, *n),
        Op::Concat(n) => d.concat_fw(xs, *n),
        Op::BatchSum => d.batch_sum_fw(x),
        Op::BatchSlice(l, u) => d.batch_slice_fw(x, *l, *u),
        Op::BatchPick(ids) => d.batch_pick_fw(x, ids),
        Op::BatchConcat => d.batch_concat_fw(xs),
        _ => return None,
    };
    Some(vec![y])
}
