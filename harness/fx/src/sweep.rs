//! Whole domains of the two narrow layouts: every pair of i16 representations, every i32 representation. The oracle is
//! plain 64-bit arithmetic here. What it finds is a case, which the property's own check then decides.
use crate::{fx, nfx};
use fixnum::ops::{CheckedAdd, CheckedMul, CheckedSub, RoundMode, RoundingDiv, RoundingMul};
use fixnum::typenum::*;
use fixnum::{ArithmeticError, FixedPoint};
use fxcore::case::Case;
use fxcore::engine::call;
use std::fmt::Write;

const MODES: [RoundMode; 3] = [RoundMode::Floor, RoundMode::Nearest, RoundMode::Ceil];
type Out<T> = Result<T, ArithmeticError>;

/// `n / d` rounded.
#[inline(always)]
fn div(n: i64, d: i64, m: RoundMode) -> i64 {
    let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
    let (q, r) = (n.div_euclid(d), n.rem_euclid(d));
    match m {
        RoundMode::Floor => q,
        RoundMode::Ceil => q + (r != 0) as i64,
        RoundMode::Nearest => q + (2 * r > d || (2 * r == d && n > 0)) as i64,
    }
}

fn narrow(x: i64) -> Option<i16> {
    x.try_into().ok()
}
fn is<P>(got: Out<FixedPoint<i16, P>>, want: i64) -> bool {
    match (got, narrow(want)) {
        (Ok(g), Some(w)) => *g.as_bits() == w,
        (Err(ArithmeticError::Overflow), None) => true,
        _ => false,
    }
}
fn clamp(x: i64) -> i16 {
    x.clamp(i16::MIN as i64, i16::MAX as i64) as i16
}

fn ty(bits: u32, prec: u32) -> u32 {
    (0..nfx() as u32).find(|&k| fx(k).ty().bits == bits && fx(k).ty().prec == prec).expect("type")
}

/// One domain of 2^32 points, in rows; returns the first point that `f` refuses.
fn run(shard: u64, shards: u64, n: &mut u64, f: impl Fn(u16, u16) -> bool) -> Option<(u16, u16)> {
    for a in (0..=u16::MAX).filter(|a| *a as u64 % shards == shard) {
        match call(|| (0..=u16::MAX).find(|b| !f(a, *b))) {
            Ok(None) => *n += 1 << 16,
            Ok(Some(b)) => return Some((a, b)),
            Err(_) => {
                // somewhere in the row a call panics
                let b = (0..=u16::MAX).find(|b| !matches!(call(|| f(a, *b)), Ok(true)));
                return Some((a, b.expect("a panic that does not repeat")));
            }
        }
    }
    None
}

macro_rules! each {
    ($u:ident in [$($p:ident),*] => $e:expr) => {{
        $({
            type $u = $p;
            if let Some(c) = $e {
                return Some(c);
            }
        })*
    }};
}

type A<P> = FixedPoint<i16, P>;
type B<P> = FixedPoint<i32, P>;
fn a<P>(x: u16) -> A<P> {
    A::from_bits(x as i16)
}
fn b<P>(hi: u16, lo: u16) -> B<P> {
    B::from_bits(((hi as u32) << 16 | lo as u32) as i32)
}

struct Buf {
    b: [u8; 24],
    n: usize,
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.b[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
        self.n += s.len();
        Ok(())
    }
}

/// The canonical text, written from the right.
fn text(x: i32, prec: u32, b: &mut [u8; 24]) -> usize {
    let mut at = 24;
    let (mut m, mut digits, mut kept) = (x.unsigned_abs(), 0, false);
    while digits <= prec || m > 0 {
        let d = (m % 10) as u8;
        m /= 10;
        // a fraction digit is dropped while only zeros follow it, except the first one
        if digits >= prec || d != 0 || kept || digits + 1 == prec {
            if digits == prec {
                if !kept {
                    at -= 1;
                    b[at] = b'0';
                }
                at -= 1;
                b[at] = b'.';
            }
            at -= 1;
            b[at] = b'0' + d;
            kept = true;
        }
        digits += 1;
    }
    if x < 0 {
        at -= 1;
        b[at] = b'-';
    }
    at
}

pub fn sweep(id: &str, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
    macro_rules! pairs {
        ($u:ident, $mk:expr, $f:expr) => {
            run(shard, shards, n, $f).map(|(x, y)| {
                let mk: &dyn Fn(u32, i128, i128) -> Case = &$mk;
                mk(ty(16, $u::U32), x as i16 as i128, y as i16 as i128)
            })
        };
    }
    macro_rules! values {
        ($u:ident, $mk:expr, $f:expr) => {
            run(shard, shards, n, $f).map(|(hi, lo)| {
                let mk: &dyn Fn(u32, i128) -> Case = &$mk;
                mk(ty(32, $u::U32), ((hi as u32) << 16 | lo as u32) as i32 as i128)
            })
        };
    }
    let s = |x: u16| x as i16 as i64;
    let w = |hi: u16, lo: u16| ((hi as u32) << 16 | lo as u32) as i32 as i64;
    match id {
        "C01" => each!(U in [U0, U1, U2, U3, U4] => {
            pairs!(U, |t, x, y| Case::new(t, 0, &[x, y]), |x, y| is(a::<U>(x).cadd(a(y)), s(x) + s(y)))
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 1, &[x, y]), |x, y| is(a::<U>(x).csub(a(y)), s(x) - s(y))))
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 2, &[x, y]), |x, y| is(a::<U>(x).cmul(y as i16), s(x) * s(y))))
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 3, &[x, y]), |x, y| is((y as i16).cmul(a::<U>(x)), s(x) * s(y))))
        }),
        "C02" => each!(U in [U0, U1, U2, U3, U4] => {
            pairs!(U, |t, x, y| Case::new(t, 0, &[x, y, 0]), |x, y| *a::<U>(x).saturating_add(a(y)).as_bits() == clamp(s(x) + s(y)))
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 1, &[x, y, 0]), |x, y| *a::<U>(x).saturating_sub(a(y)).as_bits() == clamp(s(x) - s(y))))
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 2, &[x, y, 0]), |x, y| *a::<U>(x).saturating_mul(y as i16).as_bits() == clamp(s(x) * s(y))))
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 3, &[x, y, 0]), |x, y| *CheckedMul::saturating_mul(y as i16, a::<U>(x)).as_bits() == clamp(s(x) * s(y))))
                .or_else(|| (0..3usize).find_map(|m| pairs!(U, |t, x, y| Case::new(t, 4, &[x, y, m as i128]), |x, y| {
                    *a::<U>(x).saturating_rmul(a(y), MODES[m]).as_bits() == clamp(div(s(x) * s(y), 10i64.pow(U::U32), MODES[m]))
                })))
        }),
        "C03" => each!(U in [U0, U1, U2, U3, U4] => {
            (0..3usize).find_map(|m| pairs!(U, |t, x, y| Case::new(t, 0, &[x, y, m as i128]), |x, y| {
                is(a::<U>(x).rmul(a(y), MODES[m]), div(s(x) * s(y), 10i64.pow(U::U32), MODES[m]))
            }))
        }),
        "C04" => each!(U in [U0, U1, U2, U3, U4] => {
            let c = 10i64.pow(U::U32);
            (0..3usize).find_map(|m| {
                pairs!(U, |t, x, y| Case::new(t, 0, &[x, y, m as i128]), |x, y| {
                    let got = a::<U>(x).rdiv(a(y), MODES[m]);
                    if y == 0 { got == Err(ArithmeticError::DivisionByZero) } else { is(got, div(s(x) * c, s(y), MODES[m])) }
                })
                .or_else(|| pairs!(U, |t, x, y| Case::new(t, 1, &[x, y, m as i128]), |x, y| {
                    let got = (x as i16).rdiv(a::<U>(y), MODES[m]);
                    if narrow(s(x) * c).is_none() {
                        got == Err(ArithmeticError::Overflow) || (y == 0 && got == Err(ArithmeticError::DivisionByZero))
                    } else if y == 0 {
                        got == Err(ArithmeticError::DivisionByZero)
                    } else {
                        is(got, div(s(x) * c * c, s(y), MODES[m]))
                    }
                }))
            })
        }),
        "C05" => {
            each!(U in [U0, U1, U2, U3, U4] => {
                (0..3usize).find_map(|m| pairs!(U, |t, x, y| Case::new(t, 0, &[x, y, m as i128]), |x, y| {
                    let got = a::<U>(x).rdiv(y as i16, MODES[m]);
                    if y == 0 { got == Err(ArithmeticError::DivisionByZero) } else { is(got, div(s(x), s(y), MODES[m])) }
                }))
            });
            return (0..3usize).find_map(|m| {
                pairs!(U0, |_, x, y| Case::new(1, 1, &[x, y, m as i128]), |x, y| {
                    match (x as i16).rdiv(y as i16, MODES[m]) {
                        Err(ArithmeticError::DivisionByZero) => y == 0,
                        _ if y == 0 => false,
                        got => got == narrow(div(s(x), s(y), MODES[m])).ok_or(ArithmeticError::Overflow),
                    }
                })
            });
        }
        "C07" => each!(U in [U0, U1, U2, U3, U4] => {
            (0..3usize).find_map(|m| pairs!(U, |t, x, y| Case::new(t, 0, &[x, y, m as i128]), |x, y| {
                let got = *A::<U>::half_sum(a(x), a(y), MODES[m]).as_bits() as i64;
                let (lo, hi) = (div(s(x) + s(y), 2, RoundMode::Floor), div(s(x) + s(y), 2, RoundMode::Ceil));
                match MODES[m] {
                    RoundMode::Floor => got == lo,
                    RoundMode::Ceil => got == hi,
                    RoundMode::Nearest => got == lo || got == hi,
                }
            }))
        }),
        "C09" => {
            each!(U in [U0, U1, U2, U3, U4] => {
                pairs!(U, |t, x, y| Case::new(t, 0, &[x, y]), |x, y| {
                    let want = if y == 0 { s(x) } else { s(x) / s(y) * s(y) };
                    *a::<U>(x).round_towards_zero_by(a(y)).as_bits() as i64 == want
                })
            });
            each!(U in [U0, U9] => values!(U, |t, x| Case::new(t, 1, &[x, 0]), |h, l| {
                let x = w(h, l);
                let mut p = 1;
                while p < x.abs() {
                    p *= 10;
                }
                let want = if p > i32::MAX as i64 { Err(ArithmeticError::Overflow) } else { Ok(p as i32 * if x < 0 { -1 } else { 1 }) };
                b::<U>(h, l).next_power_of_ten().map(|x| x.into_bits()) == want
            }));
        }
        "C06" => each!(U in [U0, U1, U2, U3, U4, U5, U6, U7, U8, U9] => {
            let c = 10i64.pow(U::U32);
            (0..3usize).find_map(|m| values!(U, |t, x| Case::new(t, 0, &[x, m as i128]), |h, l| {
                let x = w(h, l);
                let got = b::<U>(h, l).rsqrt(MODES[m]).map(|x| x.into_bits() as i64);
                if x < 0 {
                    return got == Err(ArithmeticError::DomainViolation);
                }
                let Ok(r) = got else { return false };
                let n = x * c;
                r >= 0 && match MODES[m] {
                    RoundMode::Floor => r * r <= n && (r + 1) * (r + 1) > n,
                    RoundMode::Ceil => r * r >= n && (r == 0 || (r - 1) * (r - 1) < n),
                    // no root is half way: (2r + 1)^2 is odd
                    RoundMode::Nearest => r * r + r >= n && (r == 0 || r * r - r < n),
                }
            }))
        }),
        "C08" => each!(U in [U0, U1, U2, U3, U4, U5, U6, U7, U8, U9] => {
            let c = 10i64.pow(U::U32);
            (0..3)
                .find_map(|m| values!(U, |t, x| Case::new(t, 0, &[x, m as i128]), |h, l| {
                    b::<U>(h, l).integral(MODES[m]) as i64 == div(w(h, l), c, MODES[m])
                }))
                .or_else(|| (0..3usize).find_map(|m| values!(U, |t, x| Case::new(t, [1, 3, 2][m], &[x, 0]), |h, l| {
                    let want = div(w(h, l), c, MODES[m]) * c;
                    if i32::try_from(want).is_err() {
                        return true; // a panic, see the property's own check
                    }
                    let x = b::<U>(h, l);
                    let got = match MODES[m] {
                        RoundMode::Floor => x.floor(),
                        RoundMode::Nearest => x.round(),
                        RoundMode::Ceil => x.ceil(),
                    };
                    got.into_bits() as i64 == want
                })))
        }),
        "C10" => each!(U in [U0, U1, U2, U3, U4, U5, U6, U7, U8, U9] => {
            [0, 10].into_iter().find_map(|max| values!(U, |t, x| Case::new(t, 1, &[x, max as i128]), |h, l| {
                let x = b::<U>(h, l);
                let (m, e) = x.to_decimal(max);
                let p = U::I32;
                if x.into_bits() == 0 {
                    return (m, e) == (0, 0);
                }
                let k = 10i64.pow((e + p) as u32);
                e >= -p && e <= max && m as i64 * k == w(h, l) && (e == max || m % 10 != 0) && B::<U>::from_decimal(m, e) == Ok(x)
            }))
        }),
        "C12" => each!(U in [U4, U9] => values!(U, |t, x| Case::new(t, 0, &[x]), |h, l| {
            let x = b::<U>(h, l);
            let (mut got, mut want) = (Buf { b: [0; 24], n: 0 }, [0; 24]);
            let at = text(x.into_bits(), U::U32, &mut want);
            write!(got, "{}", x).is_ok() && got.b[..got.n] == want[at..] && {
                let s = std::str::from_utf8(&want[at..]).expect("ASCII");
                s.parse() == Ok(x) && B::<U>::from_str_exact(s) == Ok(x)
            }
        })),
        "C15" => each!(U in [U0, U1, U2, U3, U4, U5, U6, U7, U8, U9] => values!(U, |t, x| Case::new(t, 1, &[x]), |h, l| {
            // both are exact doubles, so their quotient is the double closest to the number
            let f = w(h, l) as f64 / 10f64.powi(U::I32);
            B::<U>::try_from(f) == Ok(b(h, l))
        })),
        "C16" => each!(U in [U0, U3, U6, U9] => values!(U, |t, x| Case::new(t, 0, &[x, x]), |h, l| {
            let x = b::<U>(h, l);
            let f = f64::from(x);
            let want = w(h, l) as f64 / 10f64.powi(U::I32);
            (f - want).abs() <= want.abs() * 2f64.powi(-51) && B::<U>::try_from(f) == Ok(x)
        })),
        _ => {}
    }
    None
}
