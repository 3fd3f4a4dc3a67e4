//! C01-C09: arithmetic against exact integer arithmetic.
use crate::types::{E, R};
use crate::{fx, mode_of, nfx, pick_ty, prim, show_r, show_ty, OVF};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{Gen, Ty};
use fxcore::wide::{div_round, is_rounded, Mode, I, U};

pub type Res = Result<(), String>;

/// Is `num/den`, rounded, outside `lo..=hi`? Multiplication and comparison only.
pub fn out_of_range(num: &I, den: &I, m: Mode, lo: i128, hi: i128) -> bool {
    let num = if den.neg { num.neg() } else { *num };
    let den = I::new(false, den.mag);
    let (hi, lo, one) = (I::from(hi), I::from(lo), I::from(1));
    let dbl = |x: &I| I::new(x.neg, x.mag.shl(1));
    match m {
        Mode::Floor => num >= hi.add(&one).mul(&den) || num < lo.mul(&den),
        Mode::Ceil => num > hi.mul(&den) || num <= lo.sub(&one).mul(&den),
        Mode::Nearest => dbl(&num) >= dbl(&hi).add(&one).mul(&den) || dbl(&num) <= dbl(&lo).sub(&one).mul(&den),
    }
}

pub fn rounded(num: &I, den: &I, m: Mode, t: Ty, got: &R, cx: &mut Cx) -> Res {
    let exact = || match div_round(num, den, m).i128() {
        Some(x) => format!("raw {}", x),
        None => "beyond i128".into(),
    };
    match got {
        Ok(r) => {
            cx.label("ok");
            if !is_rounded(num, den, m, &I::from(*r)) {
                return Err(format!("got raw {}, the correctly rounded result is {}", r, exact()));
            }
            if !t.has(*r) {
                return Err("result out of the type's range".into());
            }
            Ok(())
        }
        Err(E::Overflow) => {
            cx.label("overflow");
            if out_of_range(num, den, m, t.min(), t.max()) {
                Ok(())
            } else {
                Err(format!("got Overflow although the result {} is representable", exact()))
            }
        }
        Err(e) => Err(format!("unexpected error {:?}", e)),
    }
}

pub fn exact(t: Ty, want: &I, got: &R) -> Res {
    let want = want.i128().filter(|x| t.has(*x)).ok_or(OVF);
    if *got == want {
        Ok(())
    } else {
        Err(format!("got {}, expected {}", show_r(got), show_r(&want)))
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

/// `x * y / z` if it fits i128, for constructing operands.
fn mul_div(x: i128, y: i128, z: i128) -> Option<i128> {
    if z == 0 {
        return None;
    }
    if let Some(p) = x.checked_mul(y) {
        return p.checked_div(z);
    }
    let n = I::from(x).mul(&I::from(y));
    let (q, _) = n.mag.divrem(&U::from(z.unsigned_abs()));
    I::new(n.neg != (z < 0), q).i128()
}

fn small(g: &mut Gen) -> i128 {
    *g.pick(&[0i128, 0, 0, 1, -1, 1, -1, 2, -2, 3])
}

/// 2^i * 5^j dividing 10^p.
fn divisor(g: &mut Gen, p: u32) -> (i128, u32, u32) {
    let i = g.below(p as u64 + 1) as u32;
    let j = g.below(p as u64 + 1) as u32;
    (2i128.pow(i) * 5i128.pow(j), i, j)
}

fn prim_ty(i: u32) -> Ty {
    Ty { bits: prim(i).bits(), prec: 0 }
}

/// Values close to one of a small set of structurally interesting ones, for exhaustive-ish sweeps.
fn interesting(t: Ty) -> Vec<i128> {
    let mut v = vec![];
    let mut add = |x: i128| {
        for d in -2..=2i128 {
            if let Some(y) = x.checked_add(d) {
                if t.has(y) {
                    v.push(y);
                }
            }
        }
    };
    for x in [0, t.max(), t.min(), t.max() / 2, t.min() / 2, t.coef(), -t.coef(), t.coef() / 2, -t.coef() / 2] {
        add(x);
    }
    for k in 0..=t.digits() {
        for m in [1i128, 5] {
            if let Some(x) = 10i128.pow(k).checked_mul(m) {
                add(x);
                add(-x);
            }
        }
    }
    for k in 0..t.bits - 1 {
        add(1 << k);
        add(-(1 << k));
    }
    v.sort();
    v.dedup();
    v
}

/// Sweep of one binary operation over i16 types: all values x a set of second operands.
fn sweep16(shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool, mk: &dyn Fn(u32, i128, i128, i128) -> Case) {
    for ty in 0..nfx() as u32 {
        let t = fx(ty).ty();
        if t.bits != 16 {
            continue;
        }
        let mut second = interesting(t);
        if thorough {
            second.extend((0..600).map(|k| (k * 109 % 65536) - 32768));
        } else {
            second.retain(|x| [0, 1, -1, 2, 3, 7, 10, -10, 5, t.max(), t.min(), t.max() - 1, t.coef(), -t.coef(), t.coef() / 2].contains(x));
        }
        for (k, b) in second.iter().enumerate() {
            if k as u64 % shards != shard {
                continue;
            }
            for a in t.min()..=t.max() {
                for m in 0..3 {
                    if !f(mk(ty, a, *b, m)) {
                        return;
                    }
                }
            }
        }
    }
}

/// All values of the i16 types, and interesting values of every type.
fn sweep1(shard: u64, shards: u64, f: &mut dyn FnMut(Case) -> bool, mk: &dyn Fn(u32, i128) -> Vec<Case>) {
    for ty in 0..nfx() as u32 {
        let t = fx(ty).ty();
        let all: Box<dyn Iterator<Item = i128>> = if t.bits == 16 {
            Box::new(t.min()..=t.max())
        } else {
            Box::new(interesting(t).into_iter())
        };
        for (k, a) in all.enumerate() {
            if k as u64 % shards == shard {
                for c in mk(ty, a) {
                    if !f(c) {
                        return;
                    }
                }
            }
        }
    }
}

/// A second operand that puts `a (op) b` near the range boundary.
fn near_boundary(g: &mut Gen, t: Ty, a: i128, op: u32) -> i128 {
    let bound = if g.bool() { t.max() } else { t.min() };
    let b = match op {
        0 => bound.checked_sub(a),
        1 => a.checked_sub(bound),
        _ => bound.checked_div(a),
    };
    t.clamp(b.unwrap_or(0).saturating_add(small(g)))
}

// ---------------------------------------------------------------- C01

pub struct Checked;
impl Checked {
    fn is_prim(op: u32) -> bool {
        op >= 10
    }
}
impl Prop for Checked {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C01", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let op = *g.pick(&[0u32, 0, 1, 1, 2, 2, 3, 4, 5, 6, 10, 11, 12]);
        let (ty, t) = if Self::is_prim(op) {
            let k = g.below(5) as u32;
            (k, prim_ty(k))
        } else {
            pick_ty(g, i)
        };
        let a = t.val(g);
        let b = match g.below(3) {
            0 => near_boundary(
                g,
                t,
                a,
                match op % 10 {
                    0 => 0,
                    1 => 1,
                    _ => 2,
                },
            ),
            _ => t.val(g),
        };
        Case::new(ty, op, &[a, b])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let (a, b) = (c.v[0], c.v[1]);
        let t = if Self::is_prim(c.op) { prim_ty(c.ty) } else { fx(c.ty).ty() };
        if !t.has(a) || !t.has(b) {
            return cx.skip();
        }
        let (x, y) = (I::from(a), I::from(b));
        cx.nontrivial_if(a != 0 && b != 0);
        if Self::is_prim(c.op) {
            let p = prim(c.ty);
            cx.label("primitive");
            let (want, got) = match c.op {
                10 => (x.add(&y), call(|| p.cadd(a, b))?),
                11 => (x.sub(&y), call(|| p.csub(a, b))?),
                _ => (x.mul(&y), call(|| p.cmul(a, b))?),
            };
            return exact(t, &want, &got);
        }
        let f = fx(c.ty);
        let (want, got) = match c.op {
            0 => (x.add(&y), call(|| f.cadd(a, b))?),
            1 => (x.sub(&y), call(|| f.csub(a, b))?),
            2 => (x.mul(&y), call(|| f.cmul(a, b))?),
            3 => (x.mul(&y), call(|| f.cmul_rev(b, a))?),
            4 => (x.neg(), call(|| f.cneg(a))?),
            5 => (I::new(false, x.mag), call(|| f.abs(a))?),
            _ => (I::from(x.signum() as i128), Ok(call(|| f.signum(a))?)),
        };
        cx.label(if got.is_ok() { "ok" } else { "error" });
        exact(t, &want, &got)
    }
    fn show(&self, c: &Case) -> String {
        let n = [
            "cadd",
            "csub",
            "cmul(int)",
            "int.cmul",
            "cneg",
            "abs",
            "signum",
            "",
            "",
            "",
            "int cadd",
            "int csub",
            "int cmul",
        ];
        let ty = if Self::is_prim(c.op) {
            format!("i{}", prim_ty(c.ty).bits)
        } else {
            show_ty(c.ty)
        };
        format!("{} {} raw a={} b={}", ty, n[c.op as usize], c.v[0], c.v[1])
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep1(shard, shards, f, &|ty, a| [4, 5, 6].iter().map(|&op| Case::new(ty, op, &[a, 1])).collect());
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, m as u32, &[a, b]));
        // i8 is small enough to be enumerated
        if shard < 3 {
            for a in -128..128 {
                for b in -128..128 {
                    if !f(Case::new(0, 10 + shard as u32, &[a, b])) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_500_000_000
        } else {
            24_000_000
        }
    }
    fn rule(&self) -> String {
        "operand pairs over 73 fixed-point types (log-uniform, edge, decimal/binary structured, and second operands solved to land within 3 steps of MIN/MAX) and i8..i128; i16 unary cases and i8 pairs enumerated; non-trivial = both operands non-zero".into()
    }
}

// ---------------------------------------------------------------- C02

pub struct Saturating;
impl Prop for Saturating {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C02", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let op = *g.pick(&[0u32, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
        let (ty, t) = if op >= 10 {
            let k = g.below(5) as u32;
            (k, prim_ty(k))
        } else {
            pick_ty(g, i)
        };
        let m = g.below(3) as i128;
        if op == 4 || op == 9 {
            let (a, b) = rmul_pair(g, t);
            return Case::new(ty, op, &[a, b, m]);
        }
        let a = t.val(g);
        let b = match g.below(3) {
            0 => near_boundary(
                g,
                t,
                a,
                match op {
                    0 | 5 | 10 => 0,
                    1 | 6 | 11 => 1,
                    _ => 2,
                },
            ),
            _ => t.val(g),
        };
        Case::new(ty, op, &[a, b, m])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let (a, b, m) = (c.v[0], c.v[1], mode_of(c.v[2]));
        let t = if c.op >= 10 { prim_ty(c.ty) } else { fx(c.ty).ty() };
        if !t.has(a) || !t.has(b) {
            return cx.skip();
        }
        let (x, y) = (I::from(a), I::from(b));
        if c.op == 4 || c.op == 9 {
            let f = fx(c.ty);
            let got = if c.op == 4 {
                call(|| f.srmul(a, b, m))?
            } else {
                call(|| f.user(4, a, b, m))?
            };
            let (num, den) = (x.mul(&y), I::from(t.coef()));
            let sat = out_of_range(&num, &den, m, t.min(), t.max());
            cx.label(if sat { "saturated" } else { "in range" });
            cx.nontrivial_if(a != 0 && b != 0);
            if sat {
                let want = if num.neg { t.min() } else { t.max() };
                return same("saturating_rmul", got, want);
            }
            return rounded(&num, &den, m, t, &Ok(got), cx);
        }
        let (want, got) = if c.op >= 10 {
            let p = prim(c.ty);
            match c.op {
                10 => (x.add(&y), call(|| p.sadd(a, b))?),
                11 => (x.sub(&y), call(|| p.ssub(a, b))?),
                _ => (x.mul(&y), call(|| p.smul(a, b))?),
            }
        } else {
            let f = fx(c.ty);
            match c.op {
                0 => (x.add(&y), call(|| f.sadd(a, b))?),
                1 => (x.sub(&y), call(|| f.ssub(a, b))?),
                2 => (x.mul(&y), call(|| f.smul(a, b))?),
                3 => (x.mul(&y), call(|| f.smul_rev(b, a))?),
                5 => (x.add(&y), call(|| f.user(0, a, b, m))?),
                6 => (x.sub(&y), call(|| f.user(1, a, b, m))?),
                k => (x.mul(&y), call(|| f.user(k - 5, a, b, m))?),
            }
        };
        let w = want.i128().filter(|x| t.has(*x));
        cx.label(if w.is_none() { "saturated" } else { "in range" });
        cx.nontrivial_if(a != 0 && b != 0);
        same("saturating result", got, w.unwrap_or(if want.neg { t.min() } else { t.max() }))
    }
    fn show(&self, c: &Case) -> String {
        let n = [
            "saturating_add",
            "saturating_sub",
            "saturating_mul(int)",
            "int.saturating_mul",
            "saturating_rmul",
            "default saturating_add",
            "default saturating_sub",
            "default saturating_mul(int)",
            "default int.saturating_mul",
            "default saturating_rmul",
            "int saturating_add",
            "int saturating_sub",
            "int saturating_mul",
        ];
        let ty = if c.op >= 10 { format!("i{}", prim_ty(c.ty).bits) } else { show_ty(c.ty) };
        format!("{} {} raw a={} b={} {:?}", ty, n[c.op as usize], c.v[0], c.v[1], mode_of(c.v[2]))
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, m as u32, &[a, b, m]));
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, 4, &[a, b, m]));
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            16_000_000
        }
    }
    fn rule(&self) -> String {
        "operand pairs and modes as for the checked operations, half of them solved to land at the range boundary; non-trivial = both operands non-zero".into()
    }
}

// ---------------------------------------------------------------- C03

/// `a * b mod m`, `m < 2^127`.
fn mul_mod(a: u128, b: u128, m: u128) -> u128 {
    let (mut a, mut b, mut r) = (a % m, b, 0u128);
    while b > 0 {
        if b & 1 == 1 {
            r = (r + a) % m;
        }
        a = (a + a) % m;
        b >>= 1;
    }
    r
}

/// A solution of `k * x = r (mod m)` within the type, if there is one: an operand that leaves exactly the chosen remainder.
fn leaving(g: &mut Gen, t: Ty, k: i128, r: u128, m: i128) -> Option<i128> {
    let m = m.unsigned_abs().min(i128::MAX as u128);
    let (mut r0, mut r1, mut s0, mut s1) = (m, k.unsigned_abs() % m, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 % r1);
        (s0, s1) = (s1, s0.wrapping_sub((q as i128).wrapping_mul(s1)));
    }
    // r0 = gcd(k, m), s0 * k = r0 (mod m)
    if r0 == 0 || r % r0 != 0 {
        return None;
    }
    let step = m / r0;
    let inv = s0.rem_euclid(m as i128) as u128;
    let x = mul_mod(r / r0, inv, step);
    let room = (t.max() as u128).checked_sub(x)? / step;
    let n = match g.below(4) {
        0 => 0,
        1 => room,
        2 => g.below128(room + 1),
        _ => g.u128() >> (g.below(127) + 1) % 128,
    };
    Some((x + n.min(room) * step) as i128)
}

/// A remainder of a division by `m`: a half, nothing, all but nothing.
fn remainder(g: &mut Gen, m: i128) -> u128 {
    let m = m.unsigned_abs();
    let d = g.below(3) as u128;
    match g.below(6) {
        0 | 1 => (m / 2 + d).saturating_sub(1),
        2 => (m - m / 2 + d).saturating_sub(1),
        3 => d,
        4 => m.saturating_sub(1 + d),
        _ => g.below128(m),
    }
    .min(m - 1)
}

/// Operands for a rounding product.
pub fn rmul_pair(g: &mut Gen, t: Ty) -> (i128, i128) {
    let c = t.coef();
    let p = t.prec;
    let sgn = |g: &mut Gen, x: i128| if g.bool() { x } else { x.checked_neg().unwrap_or(x) };
    let (a, b) = match g.below(14) {
        0 => (t.val(g), t.val(g)),
        12 | 13 if p > 0 => {
            // any factor, the other one leaves a chosen remainder
            let b = if g.bool() { t.val(g) } else { g.signed(t.bits - 1) };
            let r = remainder(g, c);
            match leaving(g, t, b, r, c) {
                Some(a) if b != 0 => (sgn(g, a), b),
                _ => (t.val(g), b),
            }
        }
        1 | 2 => {
            // product of a chosen total magnitude
            let total = t.bits - 1 + (p as f64 * 3.3219) as u32;
            let x = g.below(t.bits as u64 - 1) as u32 + 1;
            let y = (total.saturating_sub(x)).clamp(1, t.bits - 1);
            let b = g.mag(y) as i128;
            let a = (g.u128() >> (128 - x)) as i128;
            (sgn(g, a), sgn(g, b))
        }
        3 | 4 | 5 => {
            // exact ties and their neighbours: a*b = odd * c/2
            if p == 0 {
                (t.val(g), small(g))
            } else {
                let (d1, i, j) = divisor(g, p);
                let (d1, i) = if i == p { (d1 / 2, i - 1) } else { (d1, i) };
                let d2 = 2i128.pow(p - 1 - i) * 5i128.pow(p - j);
                let room = |d: i128, g: &mut Gen| {
                    let b = 127 - (t.max() / d).max(1).leading_zeros();
                    let b = if g.bool() { b / 2 } else { b };
                    (g.mag(b.max(1)) | 1) as i128
                };
                let (u, v) = (room(d1, g), room(d2, g));
                let a = d1.checked_mul(u).unwrap_or(d1);
                let b = d2.checked_mul(v).unwrap_or(d2);
                let (a, b) = (sgn(g, a), sgn(g, b));
                match g.below(3) {
                    0 => (a.saturating_add(small(g)), b),
                    _ => (a, b),
                }
            }
        }
        6 | 7 => {
            // result next to MIN or MAX, including the rounding step
            let bound = if g.bool() { t.max() } else { t.min() };
            let b = match g.below(3) {
                0 => t.val(g),
                1 => {
                    let d = small(g);
                    sgn(g, c.saturating_add(d))
                }
                _ => {
                    let m = g.mag(t.bits - 1) as i128 | 1;
                    sgn(g, m)
                }
            };
            let k = mul_div(bound, c, b).unwrap_or(bound);
            // offsets of up to two result steps
            let step = (c / if b == 0 { 1 } else { b }).unsigned_abs() as i128;
            let off = (g.range(-2, 2) as i128).saturating_mul(step / 2).saturating_add(small(g));
            (t.clamp(k.saturating_add(off)), t.clamp(b))
        }
        8 | 9 => {
            // chosen quotient pattern
            let q = if t.bits == 128 { g.limbs() } else { t.val(g) };
            let b = t.val(g);
            let a = mul_div(q, c, b).unwrap_or(1);
            (t.clamp(a.saturating_add(small(g))), b)
        }
        10 => {
            let n = t.val(g) / c;
            (n.saturating_mul(c).saturating_add(small(g)), t.val(g))
        }
        _ => {
            let b = g.signed(t.bits - 1);
            (g.signed((t.bits - 1) / 2 + 4), b)
        }
    };
    let (a, b) = (t.clamp(a), t.clamp(b));
    if g.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

fn tie_label(num: &I, den: &I, cx: &mut Cx) {
    // cheap enough only for narrow numbers
    if let (Some(n), Some(d)) = (num.mag.u128(), den.mag.u128()) {
        let r = n % d;
        if r == 0 {
            cx.label("exact");
        } else if r >= d - r && r - (d - r) == 0 {
            cx.label("tie");
        } else if (r.max(d - r) - r.min(d - r)) <= 2 {
            cx.label("near tie");
        }
        cx.nontrivial_if(r != 0);
    } else {
        cx.nontrivial();
    }
}

pub struct Rmul;
impl Prop for Rmul {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C03", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let (a, b) = rmul_pair(g, t);
        Case::new(ty, 0, &[a, b, g.below(3) as i128])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let (a, b, m) = (c.v[0], c.v[1], mode_of(c.v[2]));
        if !t.has(a) || !t.has(b) {
            return cx.skip();
        }
        let got = call(|| f.rmul(a, b, m))?;
        let (num, den) = (I::from(a).mul(&I::from(b)), I::from(t.coef()));
        tie_label(&num, &den, cx);
        rounded(&num, &den, m, t, &got, cx)?;
        let rev = call(|| f.rmul(b, a, m))?;
        same("commutativity", rev, got)
    }
    fn show(&self, c: &Case) -> String {
        format!("{} rmul raw a={} b={} {:?}", show_ty(c.ty), c.v[0], c.v[1], mode_of(c.v[2]))
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, 0, &[a, b, m]));
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            600_000_000
        } else {
            16_000_000
        }
    }
    fn rule(&self) -> String {
        "operand pairs over 73 types: constructed exact ties and neighbours, factors solved to leave a chosen remainder with an arbitrary other factor, quotients with chosen limb patterns, products solved to land on MIN/MAX +-2 half steps, log-uniform; non-trivial = the product is not a multiple of the step (or wider than 128 bits)".into()
    }
}

// ---------------------------------------------------------------- C04

fn rdiv_pair(g: &mut Gen, t: Ty) -> (i128, i128) {
    let c = t.coef();
    let p = t.prec;
    let sgn = |g: &mut Gen, x: i128| if g.bool() { x } else { x.checked_neg().unwrap_or(x) };
    let (a, b) = match g.below(16) {
        0 => (t.val(g), t.val(g)),
        14 | 15 => {
            // any divisor, the dividend leaves a chosen remainder
            let b = if g.bool() { t.val(g) } else { g.signed(t.bits - 1) };
            if b == 0 {
                (t.val(g), b)
            } else {
                let r = remainder(g, b);
                match leaving(g, t, c, r, b) {
                    Some(a) => (sgn(g, a), b),
                    None => (t.val(g), b),
                }
            }
        }
        1 | 2 => {
            // quotient of chosen magnitude
            let cb = 128 - (c as u128).leading_zeros();
            let y = g.below(t.bits as u64 - 1) as u32 + 1;
            let qb = g.below(t.bits as u64 - 1) as u32 + 1;
            let x = (y + qb).saturating_sub(cb).clamp(1, t.bits - 1);
            let b = (g.u128() >> (128 - y)) as i128;
            let a = (g.u128() >> (128 - x)) as i128;
            (sgn(g, a), sgn(g, b))
        }
        3 | 4 | 5 => {
            // ties: a = u*w, b = 2*u*e, e | c with all its twos, w odd
            let j = g.below(p as u64 + 1) as u32;
            let e2 = 2i128.pow(p + 1).checked_mul(5i128.pow(j)).unwrap_or(2);
            let umax = (t.max() / e2).max(1);
            let u = 1 + g.below128(umax as u128) as i128;
            let u = if g.bool() { u } else { umax };
            let b = e2.saturating_mul(u);
            let w = (g.mag((128 - (t.max() / u).max(1).leading_zeros()).clamp(1, 126)) | 1) as i128;
            let a = u.checked_mul(w).filter(|a| t.has(*a)).unwrap_or(u);
            let (a, b) = (sgn(g, a), sgn(g, b));
            match g.below(3) {
                0 => (a.saturating_add(small(g)), b),
                1 => (a, b.saturating_add(small(g))),
                _ => (a, b),
            }
        }
        6 | 7 => {
            // result next to MIN or MAX
            let bound = if g.bool() { t.max() } else { t.min() };
            let b = match g.below(3) {
                0 => {
                    let d = small(g);
                    sgn(g, c.saturating_add(d))
                }
                1 => g.signed(128 - (c as u128).leading_zeros()),
                _ => t.val(g),
            };
            let a = mul_div(bound, b, c).unwrap_or(bound);
            (a.saturating_add(small(g)), b)
        }
        8 | 9 | 10 => {
            // chosen quotient pattern: a = ceil-ish(q*b/c)
            let q = if t.bits == 128 { g.limbs() } else { t.val(g) };
            let b = if t.bits == 128 && g.bool() { g.limbs() } else { t.val(g) };
            let a = mul_div(q, b, c).unwrap_or(t.val(g));
            (a.saturating_add(small(g)), b)
        }
        11 => {
            // huge divisor, dividend near its halves
            let b = if g.bool() {
                t.min() + g.below(3) as i128
            } else {
                t.max() - g.below(3) as i128
            };
            let n = *g.pick(&[1i128, 2, 3, 5, 7]);
            let d = (*g.pick(&[1i128, 1, c, c.min(t.max() / 20).saturating_mul(10)])).saturating_mul(2);
            let a = (b / d).saturating_mul(n).saturating_add(small(g));
            (sgn(g, a), b)
        }
        12 => {
            let (k, d) = (g.range(1, 20) as i128, small(g));
            let b = sgn(g, c.saturating_mul(k).saturating_add(d));
            (t.val(g), b)
        }
        _ => (t.val(g), g.signed((t.bits - 1) / 2)),
    };
    (t.clamp(a), t.clamp(b))
}

pub struct Rdiv;
impl Prop for Rdiv {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C04", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let m = g.below(3) as i128;
        match g.below(10) {
            0 | 1 => {
                // integer dividend
                let k = match g.below(3) {
                    0 => t.val(g),
                    1 => t.clamp((if g.bool() { t.max() / t.coef() } else { t.min() / t.coef() }).saturating_add(small(g))),
                    _ => t.clamp(g.signed(t.bits - 1) / t.coef()),
                };
                let (_, b) = rdiv_pair(g, t);
                let b = if g.bool() { b } else { t.val(g) };
                Case::new(ty, 1, &[k, b, m])
            }
            2 => {
                let b = if g.bool() {
                    t.val(g)
                } else {
                    // c*c/b near interesting quotients
                    let q = t.val(g);
                    t.clamp(mul_div(t.coef(), t.coef(), q).unwrap_or(1).saturating_add(small(g)))
                };
                Case::new(ty, 2, &[t.coef(), b, m])
            }
            _ => {
                let (a, b) = rdiv_pair(g, t);
                Case::new(ty, 0, &[a, b, m])
            }
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let (a, b, m) = (c.v[0], c.v[1], mode_of(c.v[2]));
        if !t.has(a) || !t.has(b) || (c.op == 2 && a != t.coef()) {
            return cx.skip();
        }
        let got = match c.op {
            0 => call(|| f.rdiv(a, b, m))?,
            1 => call(|| f.int_rdiv(a, b, m))?,
            _ => call(|| f.recip(b, m))?,
        };
        if c.op == 1 {
            // the dividend itself has to be representable
            let big = I::from(a).mul(&I::from(t.coef())).i128().filter(|x| t.has(*x)).is_none();
            if big {
                cx.label("integer dividend does not fit");
                // with a zero divisor either error is legitimate
                return match got {
                    Err(E::Overflow) => Ok(()),
                    Err(E::DivisionByZero) if b == 0 => Ok(()),
                    _ => Err(format!("got {}, expected Overflow", show_r(&got))),
                };
            }
        }
        if b == 0 {
            cx.label("division by zero");
            return same("division by zero", got, Err(E::DivisionByZero));
        }
        let coef = I::from(t.coef());
        let num = if c.op == 1 { I::from(a).mul(&coef).mul(&coef) } else { I::from(a).mul(&coef) };
        let den = I::from(b);
        tie_label(&num, &den, cx);
        rounded(&num, &den, m, t, &got, cx)
    }
    fn show(&self, c: &Case) -> String {
        let n = ["rdiv", "int.rdiv", "recip"][c.op as usize];
        format!("{} {} a={} raw b={} {:?}", show_ty(c.ty), n, c.v[0], c.v[1], mode_of(c.v[2]))
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, 0, &[a, b, m]));
        // every divisor of the i16 types
        sweep1(shard, shards, f, &|ty, b| {
            let t = fx(ty).ty();
            let mut v = vec![];
            for m in 0..3 {
                v.push(Case::new(ty, 2, &[t.coef(), b, m]));
                for a in [1, 2, 3, -1, t.max() / t.coef(), t.min() / t.coef()] {
                    v.push(Case::new(ty, 1, &[a, b, m]));
                }
                for a in [t.max(), t.min(), 1, -1] {
                    v.push(Case::new(ty, 0, &[a, b, m]));
                }
            }
            v
        });
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            600_000_000
        } else {
            16_000_000
        }
    }
    fn rule(&self) -> String {
        "dividend/divisor pairs over 73 types (fixed/fixed, integer/fixed, recip): constructed ties and neighbours, dividends solved to leave a chosen remainder of an arbitrary divisor, quotients with chosen 64-bit limb patterns, quotients solved to land on MIN/MAX, divisors at MIN/MAX; non-trivial = division with remainder (or wider than 128 bits)".into()
    }
}

// ---------------------------------------------------------------- C05

pub struct RdivInt;
fn int_pair(g: &mut Gen, t: Ty) -> (i128, i128) {
    let sgn = |g: &mut Gen, x: i128| if g.bool() { x } else { x.checked_neg().unwrap_or(x) };
    match g.below(6) {
        0 => (t.val(g), t.val(g)),
        1 | 2 => {
            // a = b*q + b/2 + small
            let b = if g.bool() { t.val(g) } else { t.clamp(g.signed(t.bits - 1)) };
            let qmax = if b == 0 {
                1
            } else {
                (t.max() / b.checked_abs().unwrap_or(t.max()).max(1)).max(1)
            };
            let q = g.below128(qmax as u128) as i128;
            let h = b / 2;
            let a = b.saturating_mul(q).saturating_add(h).saturating_add(small(g));
            (t.clamp(sgn(g, a)), b)
        }
        3 => {
            let b = if g.bool() {
                t.min() + g.below(4) as i128
            } else {
                t.max() - g.below(4) as i128
            };
            let a = *g.pick(&[b / 2, b, -(b / 2), t.min(), t.max(), b / 4 * 3]);
            (t.clamp(a.saturating_add(small(g))), b)
        }
        4 => (t.edge(g), g.range(-12, 12) as i128),
        _ => {
            let b = sgn(g, g.clone().mag(t.bits - 1) as i128);
            (t.val(g), t.clamp(b))
        }
    }
}
impl Prop for RdivInt {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C05", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let m = g.below(3) as i128;
        if g.chance(1, 2) {
            let (ty, t) = pick_ty(g, i);
            let (a, b) = int_pair(g, t);
            Case::new(ty, 0, &[a, b, m])
        } else {
            let k = g.below(5) as u32;
            let (a, b) = int_pair(g, prim_ty(k));
            Case::new(k, 1, &[a, b, m])
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let (a, b, m) = (c.v[0], c.v[1], mode_of(c.v[2]));
        let t = if c.op == 0 { fx(c.ty).ty() } else { prim_ty(c.ty) };
        if !t.has(a) || !t.has(b) {
            return cx.skip();
        }
        let got = if c.op == 0 {
            call(|| fx(c.ty).rdiv_int(a, b, m))?
        } else {
            call(|| prim(c.ty).rdiv(a, b, m))?
        };
        if b == 0 {
            cx.label("division by zero");
            return same("division by zero", got, Err(E::DivisionByZero));
        }
        let (num, den) = (I::from(a), I::from(b));
        tie_label(&num, &den, cx);
        rounded(&num, &den, m, t, &got, cx)
    }
    fn show(&self, c: &Case) -> String {
        let ty = if c.op == 0 { show_ty(c.ty) } else { format!("i{}", prim_ty(c.ty).bits) };
        format!("{} rdiv(int) raw a={} b={} {:?}", ty, c.v[0], c.v[1], mode_of(c.v[2]))
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        // all i8 pairs
        for a in -128..128i128 {
            if (a + 128) as u64 % shards != shard {
                continue;
            }
            for b in -128..128 {
                for m in 0..3 {
                    if !f(Case::new(0, 1, &[a, b, m])) {
                        return;
                    }
                }
            }
        }
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, 0, &[a, b, m]));
        for k in 1..5u32 {
            let v = interesting(prim_ty(k));
            for (i, &a) in v.iter().enumerate() {
                if i as u64 % shards != shard {
                    continue;
                }
                for &b in &v {
                    for m in 0..3 {
                        if !f(Case::new(k, 1, &[a, b, m])) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            16_000_000
        }
    }
    fn rule(&self) -> String {
        "dividend/integer-divisor pairs over 73 types and i8..i128: all i8 pairs, constructed ties and neighbours, divisors at MIN/MAX and beyond MAX/2; non-trivial = division with remainder".into()
    }
}

// ---------------------------------------------------------------- C06

pub struct Rsqrt;
impl Prop for Rsqrt {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C06", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let c = t.coef();
        let m = g.below(3) as i128;
        let x = match g.below(8) {
            0 => t.val(g),
            1 | 2 | 3 => {
                // x*c next to s^2 or to s^2 + s (half way between roots)
                let n = U::from(t.max() as u128).mulu(c as u128);
                let sb = (n.bits() + 1) / 2;
                let s = match g.below(4) {
                    0 => (g.u128() >> (128 - sb)) as i128,
                    1 => (1i128 << g.below(sb as u64)) + small(g),
                    2 => 10i128.pow(g.below(t.digits() as u64 + 1) as u32).saturating_add(small(g)),
                    _ => g.mag(sb) as i128,
                };
                let s = s.abs().min(i128::MAX >> (127 - sb));
                let sq = if g.bool() { mul_div(s, s, c) } else { mul_div(s, s.saturating_add(1), c) };
                sq.unwrap_or(t.max()).saturating_add(small(g))
            }
            4 => {
                // perfect squares of the type: (k/10^h)^2
                let h = 10i128.pow(t.prec - t.prec / 2);
                let k = g.mag((t.bits - 1) / 2 + 2) as i128 / if g.bool() { h } else { 1 } + 1;
                let s = k.saturating_mul(h);
                mul_div(s, s, c).unwrap_or(t.max()).saturating_add(small(g))
            }
            5 => {
                // the widened radicand next to a power of two (2^53, 2^64, ...): first guesses
                let n = U::from(t.max() as u128).mulu(c as u128);
                let b = g.below(n.bits() as u64) as u32;
                let mut r = U::ZERO;
                r.0[(b / 64) as usize] = 1 << (b % 64);
                let (q, _) = r.divrem(&U::from(c as u128));
                (q.u128().unwrap_or(0) as i128).saturating_add(small(g))
            }
            6 => t.max() - g.mag(20) as i128,
            _ => g.mag(t.bits - 1) as i128,
        };
        let x = t.clamp(x);
        let x = if g.chance(1, 12) {
            x
        } else {
            x.checked_abs().unwrap_or(t.max()).min(t.max())
        };
        Case::new(ty, 0, &[x, m])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let (x, m) = (c.v[0], mode_of(c.v[1]));
        if !t.has(x) {
            return cx.skip();
        }
        let got = call(|| f.rsqrt(x, m))?;
        if x < 0 {
            cx.label("negative");
            return same("rsqrt of a negative number", got, Err(E::DomainViolation));
        }
        let r = match got {
            Ok(r) => r,
            Err(_) => return Err(format!("got {} for a non-negative number", show_r(&got))),
        };
        if r < 0 {
            return Err(format!("negative root raw {}", r));
        }
        let n = U::from(x as u128).mulu(t.coef() as u128);
        let r = r as u128;
        let sq = |x: u128| U::from(x).mulu(x);
        let ok = match m {
            Mode::Floor => sq(r) <= n && sq(r + 1) > n,
            Mode::Ceil => sq(r) >= n && (r == 0 || sq(r - 1) < n),
            Mode::Nearest => sq(2 * r + 1) >= n.shl(2) && (r == 0 || sq(2 * r - 1) <= n.shl(2)),
        };
        let exact = sq(r) == n;
        cx.label(if exact { "perfect square" } else { "irrational" });
        cx.nontrivial_if(!exact);
        if ok {
            Ok(())
        } else {
            Err(format!("got raw {} which is not the correctly rounded root", r))
        }
    }
    fn show(&self, c: &Case) -> String {
        format!("{} rsqrt raw {} {:?}", show_ty(c.ty), c.v[0], mode_of(c.v[1]))
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep1(shard, shards, f, &|ty, a| (0..3).map(|m| Case::new(ty, 0, &[a, m])).collect());
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            250_000_000
        } else {
            8_000_000
        }
    }
    fn rule(&self) -> String {
        "radicands over 73 types: all i16 values, next to squares and to half way between squares at every magnitude, widened radicand next to powers of two, log-uniform; non-trivial = the root is not exact".into()
    }
}

// ---------------------------------------------------------------- C07

pub struct HalfSum;
impl Prop for HalfSum {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C07", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let a = t.val(g);
        let b = match g.below(5) {
            0 => t.clamp(a.saturating_add(g.range(-5, 5) as i128)),
            1 => t.clamp(a.checked_neg().unwrap_or(t.max()).saturating_add(g.range(-5, 5) as i128)),
            2 => t.edge(g),
            _ => t.val(g),
        };
        let (a, b) = if g.bool() { (a, b) } else { (b, a) };
        Case::new(ty, 0, &[a, b, g.below(3) as i128])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let (a, b, m) = (c.v[0], c.v[1], mode_of(c.v[2]));
        if !t.has(a) || !t.has(b) {
            return cx.skip();
        }
        let got = call(|| f.half_sum(a, b, m))?;
        let rev = call(|| f.half_sum(b, a, m))?;
        let sum = I::from(a).add(&I::from(b));
        let two = I::from(2);
        let odd = sum.mag.0[0] & 1 == 1;
        cx.label(if odd { "rounded" } else { "exact" });
        cx.label(if a.signum() == b.signum() { "same sign" } else { "different signs" });
        cx.nontrivial_if(a != b);
        let r = I::from(got);
        let ok = match m {
            // either neighbour is nearest
            Mode::Nearest => is_rounded(&sum, &two, Mode::Floor, &r) || is_rounded(&sum, &two, Mode::Ceil, &r),
            m => is_rounded(&sum, &two, m, &r),
        };
        if !ok {
            return Err(format!("got raw {}, expected raw {:?}", got, div_round(&sum, &two, m).i128()));
        }
        same("symmetry", rev, got)
    }
    fn show(&self, c: &Case) -> String {
        format!("{} half_sum raw {} {} {:?}", show_ty(c.ty), c.v[0], c.v[1], mode_of(c.v[2]))
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep16(shard, shards, thorough, f, &|ty, a, b, m| Case::new(ty, 0, &[a, b, m]));
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> String {
        "operand pairs over 73 types, including near-equal, near-opposite and extreme pairs; all i16 values against edge values; non-trivial = different operands".into()
    }
}

// ---------------------------------------------------------------- C08

pub struct Integral;
impl Prop for Integral {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C08", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let c = t.coef();
        let x = match g.below(4) {
            0 => {
                let n = g.signed(t.bits - 1) / c;
                let h = if g.bool() { c / 2 } else { -(c / 2) };
                n.saturating_mul(c).saturating_add(h).saturating_add(small(g))
            }
            1 => {
                // the last whole units before the bounds
                let e = if g.bool() { t.max() } else { t.min() };
                (e / c - small(g).abs() * e.signum())
                    .saturating_mul(c)
                    .saturating_add(if g.bool() { c / 2 } else { 0 })
                    .saturating_add(small(g))
            }
            _ => t.val(g),
        };
        Case::new(ty, g.below(4) as u32, &[t.clamp(x), g.below(3) as i128])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let x = c.v[0];
        if !t.has(x) {
            return cx.skip();
        }
        let m = match c.op {
            0 => mode_of(c.v[1]),
            1 => Mode::Floor,
            2 => Mode::Ceil,
            _ => Mode::Nearest,
        };
        let (num, den) = (I::from(x), I::from(t.coef()));
        tie_label(&num, &den, cx);
        if c.op == 0 {
            let got = call(|| f.integral(x, m))?;
            return rounded(&num, &den, m, t, &Ok(got), cx);
        }
        let got = call(|| match c.op {
            1 => f.floor(x),
            2 => f.ceil(x),
            _ => f.round(x),
        });
        let want = div_round(&num, &den, m).mul(&den).i128().filter(|x| t.has(*x));
        match (got, want) {
            (Err(_), None) => {
                cx.label("integer not representable");
                Ok(())
            }
            (Err(e), Some(w)) => Err(format!("{}, expected raw {}", e, w)),
            (Ok(g), Some(w)) => same("result", g, w),
            (Ok(g), None) => Err(format!("got raw {} although the integer is not representable", g)),
        }
    }
    fn show(&self, c: &Case) -> String {
        let n = ["integral", "floor", "ceil", "round"][c.op as usize];
        format!("{} {} raw {} {:?}", show_ty(c.ty), n, c.v[0], mode_of(c.v[1]))
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep1(shard, shards, f, &|ty, a| {
            let mut v: Vec<Case> = (0..3).map(|m| Case::new(ty, 0, &[a, m])).collect();
            v.extend((1..4).map(|op| Case::new(ty, op, &[a, 0])));
            v
        });
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> String {
        "values over 73 types: all i16 values, halves and whole numbers +-3 steps at every magnitude, the last whole units before MIN/MAX; non-trivial = the value is not an integer".into()
    }
}

// ---------------------------------------------------------------- C09

pub struct Coarse;
impl Prop for Coarse {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C09", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        if g.bool() {
            let x = t.val(g);
            let p = match g.below(4) {
                0 => 10i128.pow(g.below(t.digits() as u64 + 1) as u32) * if g.bool() { 1 } else { -1 },
                1 => small(g),
                2 => t.clamp(x.checked_div(g.range(-9, 9) as i128).unwrap_or(0).saturating_add(small(g))),
                _ => t.val(g),
            };
            Case::new(ty, 0, &[x, t.clamp(p)])
        } else {
            let x = match g.below(3) {
                0 => t.clamp(10i128.pow(g.below(t.digits() as u64 + 1) as u32).saturating_add(small(g))),
                _ => t.val(g),
            };
            Case::new(ty, 1, &[x, 0])
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let (x, p) = (c.v[0], c.v[1]);
        if !t.has(x) || !t.has(p) {
            return cx.skip();
        }
        if c.op == 0 {
            let got = call(|| f.rtz(x, p))?;
            cx.nontrivial_if(p != 0 && x != 0);
            cx.label("round_towards_zero_by");
            if p == 0 {
                return same("zero precision", got, x);
            }
            let q = div_round(&I::new(false, I::from(x).mag), &I::new(false, I::from(p).mag), Mode::Floor);
            let mag = q.mag.mul(&I::from(p).mag);
            return same("result", Some(got), I::new(x < 0, mag).i128());
        }
        cx.label("next_power_of_ten");
        cx.nontrivial_if(x != 0);
        let got = call(|| f.npt(x))?;
        let target = x.unsigned_abs().max(1);
        let mut w = 1u128;
        while w < target && w <= t.max() as u128 {
            w = w.saturating_mul(10);
        }
        let want = if w > t.max() as u128 {
            Err(OVF)
        } else {
            Ok(w as i128 * if x < 0 { -1 } else { 1 })
        };
        same("result", got, want)
    }
    fn show(&self, c: &Case) -> String {
        let n = ["round_towards_zero_by", "next_power_of_ten"][c.op as usize];
        format!("{} {} raw {} {}", show_ty(c.ty), n, c.v[0], c.v[1])
    }
    fn fixed(&self, shard: u64, shards: u64, thorough: bool, f: &mut dyn FnMut(Case) -> bool) {
        sweep1(shard, shards, f, &|ty, a| vec![Case::new(ty, 1, &[a, 0])]);
        sweep16(shard, shards, thorough, f, &|ty, a, b, _| Case::new(ty, 0, &[a, b]));
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> String {
        "values over 73 types: all i16 values; every power of ten and of two +-2 steps for every type; random value/precision pairs; non-trivial = non-zero value (and precision)".into()
    }
}
