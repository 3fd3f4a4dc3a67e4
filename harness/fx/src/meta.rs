//! C24: order, equality, hashes, constants and the raw representation. C29: errors as values.
use crate::arith::Res;
use crate::types::Failure;
use crate::{fx, mode_of, nfx, pick_ty, show_ty};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{float, Gen};
use fxcore::text;
use std::cmp::Ordering;

pub struct Meta;

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

impl Prop for Meta {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        match g.below(8) {
            0 => {
                let n = g.range(0, 40);
                let mut v: Vec<i128> = (0..n).map(|_| t.val(g)).collect();
                for _ in 0..n / 3 {
                    let x = v[g.below(v.len() as u64) as usize];
                    v.push(x);
                }
                Case::new(ty, 1, &v)
            }
            1 | 2 => Case::new(ty, 3, &[t.val(g), g.below(3) as i128]),
            k => {
                let a = t.val(g);
                let b = match k {
                    3 => a,
                    4 => a.saturating_add(g.range(-2, 2) as i128),
                    5 => a.checked_neg().unwrap_or(0),
                    6 => a ^ 1i128.wrapping_shl(g.below(t.bits as u64 - 1) as u32),
                    _ => t.val(g),
                };
                Case::new(ty, 0, &[a, t.clamp(b)])
            }
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        if c.v.iter().any(|x| !t.has(*x)) {
            return cx.skip();
        }
        match c.op {
            0 => {
                let (a, b) = (c.v[0], c.v[1]);
                let o = call(|| f.order(a, b))?;
                let ord = if a < b {
                    Ordering::Less
                } else if a > b {
                    Ordering::Greater
                } else {
                    Ordering::Equal
                };
                cx.label("order");
                cx.nontrivial_if(a != b);
                want("cmp", o.cmp, ord)?;
                want("partial_cmp", o.partial, Some(ord))?;
                want("==", o.eq, ord.is_eq())?;
                want("!=", o.ne, ord.is_ne())?;
                want("<", o.lt, ord.is_lt())?;
                want("<=", o.le, ord.is_le())?;
                want(">", o.gt, ord.is_gt())?;
                want(">=", o.ge, ord.is_ge())?;
                want("max", o.max, a.max(b))?;
                want("min", o.min, a.min(b))?;
                if a == b {
                    want("hash of an equal number", o.hash_a, o.hash_b)?;
                }
                Ok(())
            }
            1 => {
                cx.label("sort");
                cx.nontrivial_if(c.v.len() > 1);
                let got = call(|| f.sort(&c.v))?;
                let mut w = c.v.clone();
                w.sort();
                want("sorting", got, w)
            }
            2 => {
                cx.label("constants");
                cx.nontrivial();
                let k = call(|| f.consts())?;
                want("ZERO", k.zero, 0)?;
                want("Default", k.default, 0)?;
                want("ONE", k.one, t.coef())?;
                want("EPSILON", k.eps, 1)?;
                want("MIN", k.min, t.min())?;
                want("MAX", k.max, t.max())?;
                want("PRECISION", k.prec, t.prec as i32)?;
                want("size", (k.size, k.align), (k.int_size, k.int_align))
            }
            _ => {
                let (a, m) = (c.v[0], mode_of(c.v[1]));
                let one = t.coef();
                cx.label("representation and ONE");
                cx.nontrivial_if(a != 0);
                want("bits", call(|| f.bits_roundtrip(a))?, [a; 4])?;
                want("x * ONE", call(|| f.rmul(a, one, m))?, Ok(a))?;
                want("ONE * x", call(|| f.rmul(one, a, m))?, Ok(a))?;
                want("x / ONE", call(|| f.rdiv(a, one, m))?, Ok(a))?;
                if a != 0 {
                    want("x / x", call(|| f.rdiv(a, a, m))?, Ok(one))?;
                }
                Ok(())
            }
        }
    }
    fn show(&self, c: &Case) -> String {
        format!(
            "{} {} raw {:?}",
            show_ty(c.ty),
            ["compare", "sort", "constants", "bits and ONE"][c.op.min(3) as usize],
            c.v
        )
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        if c.op == 1 {
            for i in 0..c.v.len() {
                let mut k = c.clone();
                k.v.remove(i);
                out.push(k);
            }
        }
        out.extend(c.shrinks());
        out
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..nfx() as u32 {
            let t = fx(ty).ty();
            if ty as u64 % shards == shard && !f(Case::new(ty, 2, &[])) {
                return;
            }
            if t.bits != 16 {
                continue;
            }
            for x in t.min()..=t.max() {
                if x.rem_euclid(shards as i128) as u64 != shard {
                    continue;
                }
                for m in 0..3 {
                    if !f(Case::new(ty, 3, &[x, m])) {
                        return;
                    }
                }
                for y in [x - 1, x, x + 1, -x, 0, t.max(), t.min()] {
                    if !f(Case::new(ty, 0, &[x, t.clamp(y)])) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            600_000_000
        } else {
            14_000_000
        }
    }
    fn rule(&self) -> String {
        "pairs (equal, adjacent, opposite, one bit apart, free), vectors with duplicates to sort, values against ONE in every mode, constants of all 73 types; all i16 values; non-trivial = different numbers / at least two elements / non-zero".into()
    }
}

pub struct Errors;

const CALLS: [&str; 20] = [
    "cadd",
    "csub",
    "cmul",
    "rmul",
    "rdiv",
    "cneg",
    "abs",
    "recip",
    "rsqrt",
    "next_power_of_ten",
    "parse",
    "from_str_exact",
    "from_decimal",
    "try_from f64",
    "try_from i128",
    "try_from u128",
    "try_from i64",
    "try_from u64",
    "integer rdiv",
    "integer cmul",
];

/// What is visible of one error.
fn seen(e: &Failure) -> Result<(String, String, String, bool), String> {
    let r = call(|| match e {
        Failure::Arithmetic(e) => (e.as_str().to_string(), format!("{}", e), format!("{:?}", e), source(e)),
        Failure::Convert(e) => (e.as_str().to_string(), format!("{}", e), format!("{:?}", e), source(e)),
    })?;
    Ok(r)
}
#[cfg(feature = "std")]
fn source<E: std::error::Error + Send + Sync + 'static>(e: &E) -> bool {
    let boxed: &(dyn std::error::Error + Send + Sync) = e;
    boxed.source().is_some()
}
#[cfg(not(feature = "std"))]
fn source<E>(_: &E) -> bool {
    false
}

impl Prop for Errors {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let one = |g: &mut Gen| -> (i128, i128, i128, Vec<u8>) {
            let op = g.below(CALLS.len() as u64) as i128;
            let (mut a, mut b) = (t.val(g), t.val(g));
            if g.chance(1, 3) {
                a = *g.pick(&[t.min(), t.max(), 0, -1]);
            }
            if g.chance(1, 3) {
                b = *g.pick(&[0, t.min(), t.max(), -1]);
            }
            if (14..18).contains(&op) {
                a = g.u128() as i128;
            }
            if op == 13 {
                a = float(g, t).to_bits() as i128;
            }
            let s = if op == 10 || op == 11 {
                let exact = g.bool();
                let s = text::decimal(g, t, exact);
                text::mutate(g, s).into_bytes()
            } else {
                vec![]
            };
            (op, a, b, s)
        };
        let (x, y) = (one(g), one(g));
        let mut c = Case::new(ty, 0, &[x.0, x.1, x.2, y.0, y.1, y.2]);
        c.s = vec![x.3, y.3];
        c
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let mut both = vec![];
        for k in 0..2 {
            let (op, a, b) = (c.v[3 * k].clamp(0, 19) as u32, c.v[3 * k + 1], c.v[3 * k + 2]);
            if !t.has(b) || !(t.has(a) || (13..18).contains(&op)) {
                return cx.skip();
            }
            let s = match std::str::from_utf8(&c.s[k]) {
                Ok(s) => s,
                Err(_) => return cx.skip(),
            };
            let e = match call(|| f.failure(op, a, b, s))? {
                Some(e) => e,
                None => continue,
            };
            cx.label(CALLS[op as usize]);
            cx.nontrivial();
            let (text, shown, debug, source) = seen(&e)?;
            let kind = match &e {
                Failure::Arithmetic(e) => Some(crate::types::err(e.clone())),
                Failure::Convert(_) => None,
            };
            let w = match kind {
                Some(crate::types::E::Overflow) => Some(("overflow", "Overflow")),
                Some(crate::types::E::DivisionByZero) => Some(("division by zero", "DivisionByZero")),
                Some(crate::types::E::DomainViolation) => Some(("domain violation", "DomainViolation")),
                Some(crate::types::E::Other) => return Err("an unknown kind of error".into()),
                None => None,
            };
            if let Some((w, d)) = w {
                want("as_str", text.as_str(), w)?;
                want("Debug", debug.as_str(), d)?;
            } else if text.is_empty() || debug.is_empty() {
                return Err("no description".into());
            }
            want("Display", shown.as_str(), text.as_str())?;
            want("an error source", source, false)?;
            let again = call(|| f.failure(op, a, b, s))?;
            if again.as_ref() != Some(&e) {
                return Err(format!("{:?} at first, then {:?}", e, again));
            }
            want("a clone", &e.clone() == &e, true)?;
            both.push((e, text, kind.is_some()));
        }
        if let [(e, x, k), (f, y, l)] = &both[..] {
            cx.label("pair");
            if k == l && (e == f) != (x == y) {
                return Err(format!("{:?} == {:?} is {}", e, f, e == f));
            }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let one = |k: usize| {
            let op = c.v[3 * k].clamp(0, 19) as usize;
            let s = String::from_utf8_lossy(&c.s[k]);
            format!(
                "{} of raw {}, {}{}",
                CALLS[op],
                c.v[3 * k + 1],
                c.v[3 * k + 2],
                if s.is_empty() { String::new() } else { format!(", {:?}", s) }
            )
        };
        format!("{}: {}; {}", show_ty(c.ty), one(0), one(1))
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            200_000_000
        } else {
            6_000_000
        }
    }
    fn rule(&self) -> String {
        "pairs of calls of 20 kinds on operands near the bounds, zeros, free texts, floats and integers; non-trivial = at least one call fails".into()
    }
}
