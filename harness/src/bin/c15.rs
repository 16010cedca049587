//! C15: malformed saved data.
use hcore::gen;
use hcore::ops::*;
use hcore::refm::*;
use hcore::util::*;
use hcore::{check, ensure};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Parameter, Shape, Tensor};
use serde_json::{json, Value};

struct W {
    dev: Dev,
}
fn w() -> W {
    W { dev: naive() }
}

fn shape_sane(s: &Shape) -> Result<(), String> {
    let d = s.dims();
    ensure!(d.len() <= 8, "depth {}", d.len());
    ensure!(d.last().map_or(true, |x| *x != 1), "trailing extent of one: {:?}", d);
    ensure!(d.iter().all(|x| *x > 0) && s.batch() > 0, "an extent is zero: {:?}x{}", d, s.batch());
    let v: u128 = d.iter().map(|x| *x as u128).product();
    ensure!(v == s.volume() as u128, "volume {} of {:?}", s.volume(), d);
    ensure!(v * s.batch() as u128 == s.size() as u128, "size {} of {:?}x{}", s.size(), d, s.batch());
    for i in 0..10 {
        ensure!(s[i] == d.get(i as usize).copied().unwrap_or(1), "extent {} of {:?} reads {}", i, d, s[i]);
    }
    Ok(())
}
/// What was accepted must be consistent, must go to a device and must come back.
fn tensor_sane(w: &W, mut t: Tensor<'static>, expect: Option<&[f32]>) -> Result<(), String> {
    shape_sane(&t.shape())?;
    let n = t.shape().size() as usize;
    let text = serde_json::to_value(&t).map_err(|e| format!("cannot be saved: {}", e))?;
    ensure!(text["values"].as_array().map(|a| a.len()) == Some(n), "an object of size {} holds {:?} values", n, text["values"].as_array().map(|a| a.len()));
    t.move_to_device(w.dev);
    let v = t.to_vec();
    ensure!(v.len() == n, "{} values of a shape of size {}", v.len(), n);
    if let Some(e) = expect {
        ensure!(check::same_bits(&v, e), "values {:?} instead of {:?}", v, e);
    }
    let y = (&t + 1.).to_vec();
    ensure!(y.len() == n, "not usable");
    Ok(())
}
fn parameter_sane(w: &W, p: Parameter<'static>) -> Result<(), String> {
    tensor_sane(w, p.value, None)?;
    tensor_sane(w, p.gradient, None)?;
    for (_, t) in p.stats {
        tensor_sane(w, t.into_inner(), None)?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Shape,
    Tensor,
    Parameter,
}
/// Loads arbitrary bytes; Ok(true) if they were accepted.
fn attempt(w: &W, what: What, text: bool, bytes: &[u8]) -> Result<bool, String> {
    macro_rules! load {
        ($t:ty) => {
            match catch(|| -> Result<$t, String> {
                if text {
                    serde_json::from_slice(bytes).map_err(|e| e.to_string())
                } else {
                    bincode::deserialize(bytes).map_err(|e| e.to_string())
                }
            }) {
                Err(m) => return Err(format!("panicked: {}", m)),
                Ok(Err(_)) => return Ok(false),
                Ok(Ok(x)) => x,
            }
        };
    }
    let r = match what {
        What::Shape => {
            let s = load!(Shape);
            catch(|| shape_sane(&s))
        }
        What::Tensor => {
            let t = load!(Tensor<'static>);
            catch(|| tensor_sane(w, t, None))
        }
        What::Parameter => {
            let p = load!(Parameter<'static>);
            catch(|| parameter_sane(w, p))
        }
    };
    match r {
        Err(m) => Err(format!("accepted, then panicked: {}", m)),
        Ok(Err(m)) => Err(format!("accepted, but {}", m)),
        Ok(Ok(())) => Ok(true),
    }
}

/// A raw description that may be inconsistent.
#[derive(Clone, Debug)]
struct Raw {
    dims: Vec<u64>,
    batch: u64,
    values: Vec<f32>,
}
impl Raw {
    fn shape_ok(&self) -> bool {
        let mut n: u128 = self.batch as u128;
        for d in &self.dims {
            n = n.saturating_mul(*d as u128);
        }
        // every factor counts, even if others are zero
        self.dims.len() <= 8 && n > 0 && n <= u32::MAX as u128 && self.dims.iter().all(|d| *d <= u32::MAX as u64) && self.batch <= u32::MAX as u64
    }
    fn ok(&self) -> bool {
        self.shape_ok() && self.dims.iter().map(|d| *d as u128).product::<u128>() * self.batch as u128 == self.values.len() as u128
    }
    fn json_shape(&self) -> Value {
        json!({"dims": self.dims, "batch": self.batch})
    }
    fn json(&self) -> Value {
        json!({"shape": self.json_shape(), "values": self.values})
    }
    fn bin_shape(&self) -> Vec<u8> {
        let d: Vec<u32> = self.dims.iter().map(|d| *d as u32).collect();
        bincode::serialize(&(d, self.batch as u32)).unwrap()
    }
    fn bin(&self) -> Vec<u8> {
        let mut b = self.bin_shape();
        b.extend(bincode::serialize(&self.values).unwrap());
        b
    }
    fn u32s(&self) -> bool {
        self.dims.iter().all(|d| *d <= u32::MAX as u64) && self.batch <= u32::MAX as u64
    }
}
fn big(r: &mut Rng) -> u64 {
    *r.pick(&[1 << 16, 1 << 31, u32::MAX as u64, 65535, 65537, (1 << 32) - 2, 1 << 20, 641, 6700417, 1 << 30, 3, 2])
}
fn raw(r: &mut Rng) -> Raw {
    let s = gen::shape(r, 24);
    let mut d: Vec<u64> = s.d[..s.depth()].iter().map(|x| *x as u64).collect();
    for _ in 0..if r.chance(0.3) { r.us(5) } else { 0 } {
        if d.len() < 8 {
            d.push(1);
        }
    }
    let v = (0..s.n()).map(|_| r.uni(-9., 9.) as f32).collect();
    Raw { dims: d, batch: s.b as u64, values: v }
}
fn spoil(r: &mut Rng, x: &mut Raw) {
    match r.below(12) {
        0 => x.batch = 0,
        1 if !x.dims.is_empty() => {
            let k = r.us(x.dims.len());
            x.dims[k] = 0
        }
        2 => {
            // too deep
            let n = 9 + r.us(4);
            while x.dims.len() < n {
                x.dims.push(if r.chance(0.7) { 1 } else { 2 })
            }
        }
        3 => {
            // overflow, often to the right size or zero
            x.dims = (0..r.range(1, 8)).map(|_| big(r)).collect();
            x.batch = if r.chance(0.5) { 1 } else { big(r) };
            let p = x.dims.iter().fold(x.batch as u32, |a, d| a.wrapping_mul(*d as u32));
            if p < 100 && r.chance(0.8) {
                x.values = vec![1.5; p as usize];
            }
        }
        4 => {
            x.values.pop();
        }
        5 => x.values.push(2.5),
        6 => x.values.clear(),
        7 => {
            let k = x.values.len() * 2;
            x.values.resize(k, 0.5)
        }
        8 => x.batch = if r.chance(0.5) { x.batch + 1 } else { big(r) },
        9 => {
            if r.chance(0.5) {
                x.dims.push(2)
            } else {
                x.dims.pop();
            }
        }
        10 => x.batch = u32::MAX as u64 + 1 + x.batch,
        _ if !x.dims.is_empty() => {
            let k = r.us(x.dims.len());
            x.dims[k] = if r.chance(0.5) { x.dims[k] + 1 } else { x.dims[k] + (1 << 32) }
        }
        _ => (),
    }
}

/// Well-formed text or bytes that describe something possibly impossible.
fn described(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let mut x = raw(r);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        spoil(r, &mut x);
    }
    let mut one = |what: What, text: bool, bytes: Vec<u8>, ok: bool, rep: &mut Rep| -> Result<(), String> {
        let show = || format!("{:?} from {} {:?} ({})", what, if text { "text" } else { "bytes" }, x, String::from_utf8_lossy(&bytes[..bytes.len().min(400)]));
        let got = attempt(w, what, text, &bytes).map_err(|m| format!("{}: {}", show(), m))?;
        ensure!(got == ok, "{} was {}", show(), if got { "accepted" } else { "refused" });
        rep.count(if ok { "accepted" } else { "refused" });
        Ok(())
    };
    one(What::Shape, true, x.json_shape().to_string().into_bytes(), x.shape_ok(), rep)?;
    one(What::Tensor, true, x.json().to_string().into_bytes(), x.ok(), rep)?;
    if x.u32s() {
        one(What::Shape, false, x.bin_shape(), x.shape_ok(), rep)?;
        one(What::Tensor, false, x.bin(), x.ok(), rep)?;
    }
    // one part of a parameter is impossible
    let good = || Raw { dims: vec![2], batch: 1, values: vec![1., 2.] };
    let k = r.us(3);
    let part = |i: usize| if i == k { x.clone() } else { good() };
    // the parts of a parameter that disagree with each other may be refused
    let agree = Raw { dims: vec![2], batch: 1, values: vec![] };
    let trimmed: Vec<u64> = {
        let mut d = x.dims.clone();
        while d.last() == Some(&1) {
            d.pop();
        }
        d
    };
    let consistent = x.batch == 1 && trimmed == agree.dims;
    let j = json!({"value": part(0).json(), "gradient": part(1).json(), "stats": {"m": part(2).json()}});
    let got = attempt(w, What::Parameter, true, j.to_string().as_bytes()).map_err(|m| format!("parameter {}: {}", j, m))?;
    ensure!(!got || x.ok(), "parameter {} was accepted", j);
    ensure!(got || !(x.ok() && consistent), "parameter {} was refused", j);
    if x.u32s() {
        let mut b = part(0).bin();
        b.extend(part(1).bin());
        b.extend(1u64.to_le_bytes());
        b.extend(bincode::serialize("m").unwrap());
        b.extend(part(2).bin());
        let got = attempt(w, What::Parameter, false, &b).map_err(|m| format!("parameter in bytes, part {} {:?}: {}", k, x, m))?;
        ensure!(!got || x.ok(), "parameter in bytes, part {} {:?} was accepted", k, x);
        ensure!(got || !(x.ok() && consistent), "parameter in bytes, part {} {:?} was refused", k, x);
    }
    // accepted data is the data
    if x.ok() {
        let t: Tensor<'static> = bincode::deserialize(&x.bin()).map_err(|e| e.to_string())?;
        tensor_sane(w, t, Some(&x.values)).map_err(|m| format!("{:?}: {}", x, m))?;
    }
    rep.distinct(&(x.dims.clone(), x.batch, x.values.len(), k));
    rep.sample(|| format!("{:?}", x));
    Ok(())
}

/// Changes the parsed tree of valid data.
fn tree(r: &mut Rng, v: &mut Value, depth: u32) {
    if r.chance(0.25) || depth > 6 {
        *v = match r.below(14) {
            0 => Value::Null,
            1 => json!(true),
            2 => json!(-1),
            3 => json!(1.5),
            4 => json!("x"),
            5 => json!([]),
            6 => json!({}),
            7 => json!(0),
            8 => json!(4294967295u64),
            9 => json!(4294967296u64),
            10 => json!([[1]]),
            11 => json!(18446744073709551615u64),
            12 => json!([1, 1, 1, 1, 1, 1, 1, 1, 1]),
            _ => json!(1e300),
        };
        return;
    }
    match v {
        Value::Array(a) if !a.is_empty() => {
            let k = r.us(a.len());
            match r.below(5) {
                0 => {
                    a.remove(k);
                }
                1 => {
                    let e = a[k].clone();
                    a.push(e)
                }
                _ => tree(r, &mut a[k], depth + 1),
            }
        }
        Value::Object(o) if !o.is_empty() => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = r.pick(&keys).clone();
            match r.below(6) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let e = o[&k].clone();
                    o.insert("extra".to_string(), e);
                }
                _ => tree(r, o.get_mut(&k).unwrap(), depth + 1),
            }
        }
        _ => *v = json!(7),
    }
}

/// Bytes and text that were cut, flipped, spliced or made up.
fn mangled(w: &W, r: &mut Rng, rep: &mut Rep) -> Result<(), String> {
    let x = raw(r);
    let y = raw(r);
    let what = *r.pick(&[What::Shape, What::Tensor, What::Tensor, What::Parameter, What::Parameter]);
    let text = r.chance(0.5);
    let mut bytes = match (what, text) {
        (What::Shape, true) => x.json_shape().to_string().into_bytes(),
        (What::Tensor, true) => x.json().to_string().into_bytes(),
        (What::Parameter, true) => json!({"value": x.json(), "gradient": x.json(), "stats": {"a": x.json(), "b": y.json()}}).to_string().into_bytes(),
        (What::Shape, false) => x.bin_shape(),
        (What::Tensor, false) => x.bin(),
        (What::Parameter, false) => {
            let mut b = x.bin();
            b.extend(x.bin());
            b.extend(1u64.to_le_bytes());
            b.extend(bincode::serialize("a").unwrap());
            b.extend(y.bin());
            b
        }
    };
    let mut how = vec![];
    for _ in 0..r.range(1, 3) {
        let q = r.below(9);
        how.push(q);
        let n = bytes.len();
        match q {
            0 => bytes.truncate(r.us(n + 1)),
            1 if n > 0 => {
                let k = r.us(n);
                bytes[k] ^= 1 << r.below(8)
            }
            2 if n > 0 => {
                let k = r.us(n);
                bytes[k] = r.next() as u8
            }
            3 if n > 0 => {
                // a run of extreme bytes
                let k = r.us(n);
                let e = (k + *r.pick(&[1usize, 4, 8])).min(n);
                let b = *r.pick(&[0u8, 0xff, 0x80, 1]);
                bytes[k..e].iter_mut().for_each(|x| *x = b)
            }
            4 if n > 0 => {
                let k = r.us(n);
                let e = k + r.us(n - k + 1);
                let part: Vec<u8> = bytes[k..e].to_vec();
                let at = r.us(n);
                bytes.splice(at..at, part);
            }
            5 if n > 0 => {
                let k = r.us(n);
                let e = (k + 1 + r.us(12)).min(n);
                bytes.drain(k..e);
            }
            6 if text => {
                if let Ok(mut v) = serde_json::from_slice::<Value>(&bytes) {
                    tree(r, &mut v, 0);
                    bytes = v.to_string().into_bytes();
                }
            }
            7 if text && n > 0 => {
                let tok = *r.pick(&["{", "}", "[", "]", ",", "null", "-1", "0", "1e999", "\"dims\"", "NaN", "99999999999", "\u{0}", "[[[["]);
                let at = r.us(n);
                bytes.splice(at..at, tok.bytes());
            }
            8 if !text && n >= 8 => {
                // a length
                let k = r.us(n - 7);
                let v: u64 = *r.pick(&[u64::MAX, 1 << 40, 1 << 63, u32::MAX as u64, 9, 8, 0, 1 << 33]);
                bytes[k..k + 8].copy_from_slice(&v.to_le_bytes())
            }
            _ => {
                if r.chance(0.2) {
                    bytes = (0..r.us(80)).map(|_| r.next() as u8).collect()
                }
            }
        }
    }
    let got = attempt(w, what, text, &bytes).map_err(|m| format!("{:?} from {} {:?}: {}", what, if text { "text" } else { "bytes" }, String::from_utf8_lossy(&bytes), m))?;
    rep.count(if got { "mangled_accepted" } else { "mangled_refused" });
    rep.distinct(&bytes);
    if got {
        rep.sample(|| format!("accepted {:?} {:?}", what, String::from_utf8_lossy(&bytes)));
    }
    Ok(())
}

fn main() {
    let cfg = Cfg::from_args();
    cfg.stage("described", cfg.q(200_000, 5_000_000), 12., w, |w, r, rep| described(w, r, rep));
    cfg.stage("mangled", cfg.q(600_000, 15_000_000), 14., w, |w, r, rep| mangled(w, r, rep));
    cfg.finish(
        "(described) shapes, tensors and parameters written down in JSON and bincode with zero, too many, overflowing (also to zero or to the right count) or 64-bit extents, and value counts that do not match: acceptance is compared with the rule, accepted objects with the data; (mangled) valid data truncated, flipped, spliced, retyped, with changed lengths or made up: loading must return, and what it accepts must satisfy the shape invariants, hold as many values as its size, move to a device and read back",
        &["loading may use at most the address space limit of the check"],
    )
}
