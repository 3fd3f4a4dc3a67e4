//! C10, C11, C15, C16: conversions from and to decimals, integers and floats.
use crate::arith::Res;
use crate::types::INT_NAMES;
use crate::{fx, nfx, pick_ty, show_ty};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{float, Gen, Ty};
use fxcore::wide::{f64_parts, pow10, I, U};

// ---------------------------------------------------------------- C10

pub struct Decimal;
impl Prop for Decimal {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C10", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let p = t.prec as i64;
        if g.bool() {
            let e = match g.below(12) {
                0 => g.range(-p - 3, 13),
                1 => *g.pick(&[i32::MIN as i64, i32::MAX as i64, -p - 1, 11, -p, 10, i32::MIN as i64 + p]),
                _ => g.range(-p, 10),
            };
            let m = match g.below(4) {
                0 => t.val(g),
                1 => g.range(-3, 3) as i128,
                _ => {
                    // the largest mantissa that fits, and its neighbours
                    let b = if g.bool() { t.max() } else { t.min() };
                    let k = (e + p).clamp(0, 39) as u32;
                    let q = if k > 38 { 0 } else { b / 10i128.pow(k) };
                    if g.bool() {
                        q.saturating_add(g.range(-2, 2) as i128)
                    } else {
                        let w = 127 - q.unsigned_abs().max(1).leading_zeros().min(127);
                        g.signed(w.max(1))
                    }
                }
            };
            Case::new(ty, 0, &[t.clamp(m), e as i128])
        } else {
            let max = match g.below(8) {
                0 => i32::MAX as i64,
                1 => g.range(-p, 60),
                _ => g.range(-p, 12),
            };
            let x = if g.bool() {
                // trailing zeros
                let z = g.below(t.digits() as u64 + 1) as u32;
                let k = 10i128.pow(z);
                g.signed(t.bits - 1) / k * k
            } else {
                t.val(g)
            };
            Case::new(ty, 1, &[x, max as i128])
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let p = t.prec as i32;
        let (x, e) = (c.v[0], c.v[1]);
        if !t.has(x) || e < i32::MIN as i128 || e > i32::MAX as i128 {
            return cx.skip();
        }
        let e = e as i32;
        if c.op == 0 {
            let got = call(|| f.from_decimal(x, e))?;
            let want = if e < -p || e > 10 {
                cx.label("unsupported exponent");
                None
            } else {
                let k = (e + p) as u32;
                let v = I::from(x).mul(&I::new(false, pow10(k)));
                v.i128().filter(|v| t.has(*v))
            };
            cx.label(if want.is_some() { "from_decimal ok" } else { "from_decimal error" });
            cx.nontrivial_if(x != 0);
            return if got == want {
                Ok(())
            } else {
                Err(format!("got {:?}, expected {:?} (raw)", got, want))
            };
        }
        if e < -p {
            return cx.skip();
        }
        let (m, ex) = call(|| f.to_decimal(x, e))?;
        cx.label("to_decimal");
        cx.nontrivial_if(x != 0 && x % 10 == 0);
        if x == 0 {
            return if (m, ex) == (0, 0.min(e)) {
                Ok(())
            } else {
                Err(format!("got ({}, {}) for zero", m, ex))
            };
        }
        if ex < -p || ex > e {
            return Err(format!("exponent {} out of [{}, {}]", ex, -p, e));
        }
        if I::from(m).mul(&I::new(false, pow10((ex + p) as u32))) != I::from(x) {
            return Err(format!("({}, {}) is another number", m, ex));
        }
        if m % 10 == 0 && ex != e {
            return Err(format!("({}, {}) is not reduced", m, ex));
        }
        if ex <= 10 {
            cx.label("round trip");
            let back = call(|| f.from_decimal(m, ex))?;
            if back != Some(x) {
                return Err(format!("({}, {}) gives {:?} back", m, ex, back));
            }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        if c.op == 0 {
            format!("{} from_decimal({}, {})", show_ty(c.ty), c.v[0], c.v[1])
        } else {
            format!("{} to_decimal(raw {}, {})", show_ty(c.ty), c.v[0], c.v[1])
        }
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..nfx() as u32 {
            let t = fx(ty).ty();
            if t.bits != 16 {
                continue;
            }
            for x in t.min()..=t.max() {
                if x.rem_euclid(shards as i128) as u64 != shard {
                    continue;
                }
                for e in -(t.prec as i128) - 1..12 {
                    if !f(Case::new(ty, 0, &[x, e])) || (e >= -(t.prec as i128) && !f(Case::new(ty, 1, &[x, e]))) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> String {
        "mantissa/exponent pairs (mantissas solved to the largest that fits +-2, exponents across and beyond the supported range) and value/max-exponent pairs with generated trailing zeros; all i16 values x all exponents; non-trivial = non-zero mantissa, or a number with trailing zeros".into()
    }
}

// ---------------------------------------------------------------- C11

pub struct Ints;
fn int_info(k: usize) -> (u32, bool) {
    // (bits, signed)
    let b = [8, 8, 16, 16, 32, 32, 64, 64, 128, 128, isize::BITS, usize::BITS][k];
    (b, k % 2 == 0)
}
fn int_value(k: usize, bits: u128) -> I {
    let (b, signed) = int_info(k);
    if signed {
        I::from(((bits << (128 - b)) as i128) >> (128 - b))
    } else {
        I::new(false, U::from(bits & (u128::MAX >> (128 - b))))
    }
}
impl Prop for Ints {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let k = g.below(12);
        let (b, _) = int_info(k as usize);
        let x = match g.below(6) {
            0 => g.u128() >> (128 - b),
            1 => g.mag(b),
            2 => (g.mag(b - 1) as i128).wrapping_neg() as u128,
            3 => {
                // the largest integer that fits
                let q = (if g.bool() { t.max() } else { t.min() }) / t.coef();
                q.wrapping_add(g.range(-2, 2) as i128) as u128
            }
            4 => {
                // integers whose low bits would fit after a truncation
                let q = g.signed(t.bits - 1) / t.coef();
                let s = *g.pick(&[8u32, 16, 32, 64]);
                (q as u128).wrapping_add(1u128.wrapping_shl(s).wrapping_mul(g.below(3) as u128))
            }
            _ => *g.pick(&[
                u128::MAX,
                1 << (b - 1),
                (1 << (b - 1)) - 1,
                0,
                1,
                u128::MAX - 1,
                1 << 31,
                1 << 63,
                1 << 15,
                1 << 127,
            ]),
        };
        Case::new(ty, 0, &[k as i128, x as i128])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let k = c.v[0].rem_euclid(12) as usize;
        let x = int_value(k, c.v[1] as u128);
        let got = call(|| f.try_from_int(k, c.v[1] as u128))?;
        let v = if x.mag.bits() > 200 { x } else { x.mul(&I::from(t.coef())) };
        let want = v.i128().filter(|v| t.has(*v));
        cx.label(INT_NAMES[k]);
        cx.label(if want.is_some() { "fits" } else { "does not fit" });
        cx.nontrivial_if(x.signum() != 0);
        if got == want {
            Ok(())
        } else {
            Err(format!("got {:?}, expected {:?} (raw)", got, want))
        }
    }
    fn show(&self, c: &Case) -> String {
        let k = c.v[0].rem_euclid(12) as usize;
        let x = int_value(k, c.v[1] as u128);
        let s = x.mag.u128().map_or(String::new(), |m| m.to_string());
        format!("{} try_from({}{}{})", show_ty(c.ty), if x.neg { "-" } else { "" }, s, INT_NAMES[k])
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..nfx() as u32 {
            if ty as u64 % shards != shard {
                continue;
            }
            for k in 0..4i128 {
                let n = 1i128 << int_info(k as usize).0;
                for x in 0..n {
                    if !f(Case::new(ty, 0, &[k, x])) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            16_000_000
        }
    }
    fn rule(&self) -> String {
        "values of the 12 integer types into 73 fixed-point types: all 8 and 16 bit values; wider ones log-uniform, next to the largest integer that fits, and with low bits that would fit after truncation; non-trivial = non-zero".into()
    }
}

// ---------------------------------------------------------------- C15

/// `|x| * 10^prec` as a fraction, or `None` when it is below 1/16 (`Err(true)`) or beyond 2^130.
enum Scaled {
    Tiny,
    Huge,
    Frac(U, U),
}
fn scaled(x: f64, t: Ty) -> Scaled {
    let (_, m, e) = f64_parts(x);
    if m == 0 || e < -190 {
        return Scaled::Tiny;
    }
    if e > 130 {
        return Scaled::Huge;
    }
    let n = U::from(m as u128).mul(&pow10(t.prec));
    if e >= 0 {
        Scaled::Frac(n.shl(e as u32), U::from(1))
    } else {
        Scaled::Frac(n, U::from(1).shl(-e as u32))
    }
}
/// Relative tolerance: DELTA / 10^16.
pub const DELTA: u128 = 15;
const TEN16: u128 = 10_000_000_000_000_000;

/// `r <= X(1+delta) + 5/9`
fn not_above(r: &U, n: &U, d: &U) -> bool {
    r.mul(d).mulu(9 * TEN16) <= n.mulu(9 * (TEN16 + DELTA)).add(&d.mulu(5 * TEN16))
}
/// `r >= X(1-delta) - 4/9`
fn not_below(r: &U, n: &U, d: &U) -> bool {
    r.mul(d).mulu(9 * TEN16).add(&d.mulu(4 * TEN16)) >= n.mulu(9 * (TEN16 - DELTA))
}

/// Is `got` an acceptable conversion of the float?
pub fn f64_ok(x: f64, t: Ty, got: Option<i128>) -> Res {
    if !x.is_finite() {
        return match got {
            None => Ok(()),
            Some(r) => Err(format!("got raw {} for a non-finite float", r)),
        };
    }
    let neg = x.is_sign_negative();
    let limit = if neg { U::from(t.min().unsigned_abs()) } else { U::from(t.max() as u128) };
    match scaled(x, t) {
        Scaled::Tiny => {
            if got == Some(0) {
                Ok(())
            } else {
                Err(format!("got {:?} for a float below a sixteenth of the smallest step", got))
            }
        }
        Scaled::Huge => {
            if got.is_none() {
                Ok(())
            } else {
                Err(format!("got raw {:?} for a float beyond the range", got))
            }
        }
        Scaled::Frac(n, d) => match got {
            None => {
                // an error needs that the value can round beyond the limit
                if not_above(&limit.add(&U::from(1)), &n, &d) {
                    Ok(())
                } else {
                    Err("error for a float within the range".into())
                }
            }
            Some(r) => {
                if r != 0 && (r < 0) != neg {
                    return Err(format!("got raw {} of the wrong sign", r));
                }
                let m = U::from(r.unsigned_abs());
                if !not_above(&m, &n, &d) {
                    return Err(format!("got raw {} whose magnitude is too big", r));
                }
                if !not_below(&m, &n, &d) {
                    return Err(format!("got raw {} whose magnitude is too small", r));
                }
                // integers below 2^53 are exact
                let (q, rem) = n.divrem(&d.mul(&pow10(t.prec)));
                if rem.is_zero() && q < U::from(1 << 53) && q.mul(&pow10(t.prec)) != m {
                    return Err(format!("got raw {} for the integer {:?}", r, x));
                }
                Ok(())
            }
        },
    }
}

pub struct FromF64;
impl Prop for FromF64 {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C15", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        if g.chance(1, 4) {
            // a number of less than 10^15 steps
            let digits = g.range(1, 15) as u32;
            let m = g.below(10u64.pow(digits)) as i128;
            let m = if g.bool() { m } else { -m };
            return Case::new(ty, 1, &[t.clamp(m)]);
        }
        let x = float(g, t);
        Case::new(ty, 0, &[x.to_bits() as i128])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        if c.op == 1 {
            let want = c.v[0];
            if want.unsigned_abs() >= 10u128.pow(15) || !t.has(want) {
                return cx.skip();
            }
            cx.label("decimal");
            cx.nontrivial_if(want != 0);
            let x: f64 = format!("{}e-{}", want, t.prec).parse().expect("harness: float text");
            let got = call(|| f.from_f64(x))?;
            if got != Some(want) {
                return Err(format!("the double {:?} gives {:?}, expected raw {}", x, got, want));
            }
            return Ok(());
        }
        let x = f64::from_bits(c.v[0] as u64);
        let got = call(|| f.from_f64(x))?;
        let opp = call(|| f.from_f64(-x))?;
        cx.label(match got {
            Some(0) => "zero",
            Some(_) => "ok",
            None => "error",
        });
        cx.nontrivial_if(matches!(got, Some(r) if r != 0));
        f64_ok(x, t, got)?;
        match (got, opp) {
            (Some(a), Some(b)) if a == -b => Ok(()),
            (None, None) => Ok(()),
            // only MIN has no opposite
            (Some(a), None) | (None, Some(a)) if a == t.min() => Ok(()),
            _ => Err(format!("got {:?}, but {:?} for the opposite float", got, opp)),
        }
    }
    fn show(&self, c: &Case) -> String {
        if c.op == 1 {
            format!("{} from the double closest to raw {}", show_ty(c.ty), c.v[0])
        } else {
            format!("{} try_from({:?}f64 bits {:#x})", show_ty(c.ty), f64::from_bits(c.v[0] as u64), c.v[0] as u64)
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            600_000_000
        } else {
            14_000_000
        }
    }
    fn rule(&self) -> String {
        "doubles into 73 types: random bit patterns, exponents within the type's reach, closest doubles of short decimals, between two steps near the rounding thresholds (.4, .44.., .5, .55..), next to MIN/MAX, integers, powers of 2 and 10, specials, +-ulps; non-trivial = converts to a non-zero number".into()
    }
}

// ---------------------------------------------------------------- C16

/// `|f * coef - a| <= |a| * 2^-51`
pub fn to_f64_ok(v: f64, a: i128, t: Ty) -> Res {
    if !v.is_finite() {
        return Err(format!("got {:?}", v));
    }
    if (v == 0.0) != (a == 0) || (a != 0 && (v < 0.0) != (a < 0)) {
        return Err(format!("got {:?} of the wrong sign", v));
    }
    if a == 0 {
        return Ok(());
    }
    let Scaled::Frac(n, d) = scaled(v, t) else {
        return Err(format!("got {:?}, far from the number", v));
    };
    let want = U::from(a.unsigned_abs()).mul(&d);
    let diff = if n > want { n.sub(&want) } else { want.sub(&n) };
    if diff.mul(&U::from(1 << 51)) <= want {
        Ok(())
    } else {
        Err(format!("got {:?} with a relative error above 2^-51", v))
    }
}

pub struct ToF64;
impl Prop for ToF64 {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C16", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let a = match g.below(4) {
            0 => {
                // at most 15 significant digits
                let n = g.range(1, 15) as u32;
                let m = g.below(10u64.pow(n)) as i128;
                let m = if g.bool() { m } else { -m };
                m * 10i128.pow(g.below(t.digits() as u64 + 1).min(23) as u32)
            }
            1 => {
                // next to a whole number
                let n = g.signed(t.bits - 1) / t.coef();
                n.saturating_mul(t.coef()).saturating_add(g.range(-3, 3) as i128)
            }
            _ => t.val(g),
        };
        let a = if t.has(a) { a } else { t.val(g) };
        let b = match g.below(3) {
            0 => t.val(g),
            1 => a.saturating_add(g.range(-2, 2) as i128),
            _ => a.saturating_add(g.signed(t.bits - 2)),
        };
        Case::new(ty, 0, &[a, t.clamp(b)])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let (a, b) = (c.v[0], c.v[1]);
        if !t.has(a) || !t.has(b) {
            return cx.skip();
        }
        let v = call(|| f.to_f64(a))?;
        cx.nontrivial_if(a % t.coef() != 0 || a.unsigned_abs() >= 1 << 53);
        to_f64_ok(v, a, t)?;
        if a != t.min() {
            let w = call(|| f.to_f64(-a))?;
            if w != -v {
                return Err(format!("got {:?}, but {:?} for the opposite number", v, w));
            }
        }
        let w = call(|| f.to_f64(b))?;
        if (a <= b && !(v <= w)) || (a >= b && !(v >= w)) {
            return Err(format!("got {:?} for a and {:?} for b: the order is lost", v, w));
        }
        let whole = a / t.coef();
        if a % t.coef() == 0 && whole.unsigned_abs() < 1 << 53 {
            cx.label("integer below 2^53");
            if v != whole as f64 {
                return Err(format!("got {:?} for the integer {}", v, whole));
            }
        }
        if a.unsigned_abs() < 10u128.pow(15) {
            cx.label("at most 15 digits");
            let back = call(|| f.from_f64(v))?;
            if back != Some(a) {
                return Err(format!("{:?} converts back to {:?}", v, back));
            }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        format!("{} f64::from(raw a={}, b={})", show_ty(c.ty), c.v[0], c.v[1])
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..nfx() as u32 {
            let t = fx(ty).ty();
            if t.bits != 16 {
                continue;
            }
            for x in t.min()..=t.max() {
                if x.rem_euclid(shards as i128) as u64 == shard && !f(Case::new(ty, 0, &[x, t.clamp(x + 1)])) {
                    return;
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            600_000_000
        } else {
            12_000_000
        }
    }
    fn rule(&self) -> String {
        "values over 73 types: all i16 values; log-uniform, at most 15 digits, next to whole numbers; each paired with a second value for the order; non-trivial = has a fraction or at least 2^53 steps".into()
    }
}
