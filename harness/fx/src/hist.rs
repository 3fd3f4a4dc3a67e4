//! C25: histories of mixed operations on a pool of values against an exact model.
use crate::arith::Res;
use crate::types::{Fx, E, R};
use crate::{fx, mode_of, pick_ty, show_ty};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{Gen, Ty};
use fxcore::wide::{div_round, Mode, I, U};

pub struct Hist;
const POOL: usize = 4;
const STEP: usize = 5;
const OPS: [&str; 30] = [
    "cadd",
    "csub",
    "cneg",
    "abs",
    "cmul int",
    "int cmul",
    "rmul",
    "rdiv",
    "rdiv int",
    "int rdiv",
    "recip",
    "rsqrt",
    "half_sum",
    "integral+from_decimal",
    "floor",
    "ceil",
    "round",
    "round_towards_zero_by",
    "next_power_of_ten",
    "saturating_add",
    "saturating_sub",
    "saturating_mul",
    "saturating_rmul",
    "text",
    "decimal",
    "f64",
    "try_from int",
    "set",
    "max",
    "signum*x",
];

/// The smallest s with s^2 >= n (ceil) or the largest with s^2 <= n, by bisection.
fn isqrt(n: &U) -> (u128, bool) {
    let (mut lo, mut hi) = (0u128, 1u128 << 127); // lo^2 <= n < hi^2
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if U::from(mid).mulu(mid) <= *n {
            lo = mid
        } else {
            hi = mid
        }
    }
    (lo, U::from(lo).mulu(lo) == *n)
}

fn fit(t: Ty, x: I) -> R {
    x.i128().filter(|x| t.has(*x)).ok_or(E::Overflow)
}
fn clampi(t: Ty, x: I) -> R {
    Ok(x.i128().filter(|x| t.has(*x)).unwrap_or(if x.neg { t.min() } else { t.max() }))
}

/// `None`: the step is outside the domain and is not executed. Two values: either is right.
fn model(op: i128, t: Ty, a: i128, b: i128, k: i128, m: Mode) -> Option<(R, R)> {
    let (x, y, n) = (I::from(a), I::from(b), I::from(k));
    let c = I::from(t.coef());
    let div = |num: I, den: I| {
        if den.signum() == 0 {
            Err(E::DivisionByZero)
        } else {
            fit(t, div_round(&num, &den, m))
        }
    };
    let whole = |m| {
        let w = div_round(&x, &c, m).mul(&c).i128().filter(|w| t.has(*w));
        w.map(Ok)
    };
    let r = match op {
        0 => fit(t, x.add(&y)),
        1 => fit(t, x.sub(&y)),
        2 => fit(t, x.neg()),
        3 => fit(t, I::new(false, x.mag)),
        4 | 5 => fit(t, x.mul(&n)),
        6 => fit(t, div_round(&x.mul(&y), &c, m)),
        7 => div(x.mul(&c), y),
        8 => div(x, n),
        9 => match fit(t, n.mul(&c)) {
            // both errors are possible when the dividend does not fit and the divisor is zero
            Err(e) if b == 0 => return Some((Err(e), Err(E::DivisionByZero))),
            Err(e) => Err(e),
            Ok(_) => div(n.mul(&c).mul(&c), y),
        },
        10 => div(c.mul(&c), x),
        11 => {
            if a < 0 {
                Err(E::DomainViolation)
            } else {
                let sq = U::from(a as u128).mulu(t.coef() as u128);
                let (s, exact) = isqrt(&sq);
                let up = match m {
                    Mode::Floor => false,
                    Mode::Ceil => !exact,
                    // (2s+1)^2 <= 4n  <=>  s + 1/2 <= sqrt(n)
                    Mode::Nearest => U::from(2 * s + 1).mulu(2 * s + 1) <= sq.shl(2),
                };
                Ok((s + up as u128) as i128)
            }
        }
        12 => {
            let (s, two) = (x.add(&y), I::from(2));
            let d = |m| Ok(div_round(&s, &two, m).i128().unwrap());
            match m {
                Mode::Nearest => return Some((d(Mode::Floor), d(Mode::Ceil))),
                m => d(m),
            }
        }
        13 => whole(m)?,
        14 => whole(Mode::Floor)?,
        15 => whole(Mode::Ceil)?,
        16 => whole(Mode::Nearest)?,
        17 => {
            if b == 0 {
                Ok(a)
            } else {
                let q = div_round(&I::new(false, x.mag), &I::new(false, y.mag), Mode::Floor);
                Ok(I::new(a < 0, q.mag.mul(&y.mag)).i128().unwrap())
            }
        }
        18 => {
            let mut w = U::from(1);
            while w < x.mag {
                w = w.mulu(10);
            }
            if w > U::from(t.max() as u128) {
                Err(E::Overflow)
            } else {
                fit(t, I::new(a < 0, w))
            }
        }
        19 => clampi(t, x.add(&y)),
        20 => clampi(t, x.sub(&y)),
        21 => clampi(t, x.mul(&n)),
        22 => clampi(t, div_round(&x.mul(&y), &c, m)),
        23 | 24 => Ok(a),
        25 => {
            if a.unsigned_abs() >= 10u128.pow(15) {
                return None;
            }
            Ok(a)
        }
        26 => fit(t, n.mul(&c)),
        27 => Ok(k),
        28 => Ok(a.max(b)),
        _ => fit(t, x.mul(&I::from(a.signum()))),
    };
    Some((r, r))
}

fn run(f: &dyn Fx, op: i128, a: i128, b: i128, k: i128, m: Mode) -> R {
    let other = |x: Option<i128>| x.ok_or(E::Other);
    match op {
        0 => f.cadd(a, b),
        1 => f.csub(a, b),
        2 => f.cneg(a),
        3 => f.abs(a),
        4 => f.cmul(a, k),
        5 => f.cmul_rev(k, a),
        6 => f.rmul(a, b, m),
        7 => f.rdiv(a, b, m),
        8 => f.rdiv_int(a, k, m),
        9 => f.int_rdiv(k, b, m),
        10 => f.recip(a, m),
        11 => f.rsqrt(a, m),
        12 => Ok(f.half_sum(a, b, m)),
        13 => other(f.from_decimal(f.integral(a, m), 0)),
        14 => Ok(f.floor(a)),
        15 => Ok(f.ceil(a)),
        16 => Ok(f.round(a)),
        17 => Ok(f.rtz(a, b)),
        18 => f.npt(a),
        19 => Ok(f.sadd(a, b)),
        20 => Ok(f.ssub(a, b)),
        21 => Ok(f.smul(a, k)),
        22 => Ok(f.srmul(a, b, m)),
        23 => {
            let s = f.display(a);
            other(if m == Mode::Floor { f.parse_exact(&s) } else { f.parse(&s) })
        }
        24 => {
            // exponents that `from_decimal` supports
            let max = (k.rem_euclid(f.ty().prec as i128 + 11)) as i32 - f.ty().prec as i32;
            let (mant, e) = f.to_decimal(a, max);
            other(f.from_decimal(mant, e))
        }
        25 => other(f.from_f64(f.to_f64(a))),
        26 => f.try_from_int(8, k as u128).ok_or(E::Overflow),
        27 => Ok(k),
        28 => Ok(f.order(a, b).max),
        _ => f.cmul(a, f.signum(a)),
    }
}

struct Step {
    op: i128,
    dst: usize,
    a: usize,
    b: usize,
    k: i128,
    m: Mode,
}
fn steps(c: &Case, t: Ty) -> Option<Vec<Step>> {
    if c.v.len() < POOL || (c.v.len() - POOL) % STEP != 0 || c.v[..POOL].iter().any(|x| !t.has(*x)) {
        return None;
    }
    let mut out = vec![];
    for s in c.v[POOL..].chunks(STEP) {
        // packed: dst, a, b, mode
        let z = s[4].rem_euclid(4 * 4 * 4 * 3) as usize;
        let _ = (s[1], s[2]);
        let k = s[3];
        if !t.has(k) || s[0] < 0 || s[0] >= OPS.len() as i128 {
            return None;
        }
        out.push(Step {
            op: s[0],
            dst: z % 4,
            a: s[1].rem_euclid(4) as usize,
            b: s[2].rem_euclid(4) as usize,
            k,
            m: mode_of((z / 64) as i128),
        });
    }
    Some(out)
}

impl Prop for Hist {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let mut v: Vec<i128> = (0..POOL).map(|_| t.val(g)).collect();
        let n = g.range(2, 30);
        for _ in 0..n {
            let op = g.below(OPS.len() as u64) as i128;
            let k = if op == 27 || g.chance(1, 4) {
                t.val(g)
            } else {
                t.clamp(g.range(-20, 20) as i128)
            };
            v.extend([op, g.below(4) as i128, g.below(4) as i128, k, g.below(192) as i128]);
        }
        Case::new(ty, 0, &v)
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let Some(st) = steps(c, t) else {
            return cx.skip();
        };
        let mut pool = [0; POOL];
        pool.copy_from_slice(&c.v[..POOL]);
        let mut real = pool;
        let mut done = 0;
        for (n, s) in st.iter().enumerate() {
            let (a, b) = (pool[s.a], pool[s.b]);
            let Some((w1, w2)) = model(s.op, t, a, b, s.k, s.m) else {
                cx.label("step outside the domain");
                continue;
            };
            let got = call(|| run(f, s.op, real[s.a], real[s.b], s.k, s.m)).map_err(|e| format!("step {} ({}): {}", n, OPS[s.op as usize], e))?;
            if got != w1 && got != w2 {
                return Err(format!(
                    "step {} ({} raw {} {} int {} {:?}): got {:?}, the model has {:?}",
                    n, OPS[s.op as usize], a, b, s.k, s.m, got, w1
                ));
            }
            match got {
                Ok(x) => {
                    cx.label(OPS[s.op as usize]);
                    done += 1;
                    real[s.dst] = x;
                    pool[s.dst] = x;
                }
                Err(_) => cx.label("failed step"),
            }
            if real != pool {
                return Err(format!("step {}: the pool is {:?}, the model has {:?}", n, real, pool));
            }
        }
        cx.nontrivial_if(done >= 3);
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = fx(c.ty).ty();
        let mut o = format!("{} pool {:?}:", show_ty(c.ty), &c.v[..POOL.min(c.v.len())]);
        for s in steps(c, t).unwrap_or_default() {
            o.push_str(&format!(" p{}={}(p{},p{},{},{:?});", s.dst, OPS[s.op as usize], s.a, s.b, s.k, s.m));
        }
        o
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        let n = (c.v.len() - POOL) / STEP;
        let mut out = vec![];
        let mut w = n;
        while w > 0 {
            let mut at = 0;
            while at + w <= n {
                let mut k = c.clone();
                k.v.drain(POOL + at * STEP..POOL + (at + w) * STEP);
                out.push(k);
                at += w;
            }
            w /= 2;
        }
        // only operands are simplified, never which operation a step is
        for k in c.shrinks() {
            let same = k.v.len() == c.v.len() && (POOL..k.v.len()).all(|i| (i - POOL) % STEP == 3 || k.v[i] == c.v[i]);
            if same {
                out.push(k);
            }
        }
        out
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            60_000_000
        } else {
            1_200_000
        }
    }
    fn rule(&self) -> String {
        "histories of 2..30 steps over a pool of 4 values of one of 73 types, 30 kinds of step; failed steps leave the pool unchanged; non-trivial = at least three successful steps".into()
    }
}
