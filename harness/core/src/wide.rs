//! Exact fixed-width arithmetic for the oracles: schoolbook 512-bit unsigned and sign+magnitude.
//! Everything asserts that nothing is lost, so a too small width shows as a harness error.
use std::cmp::Ordering;

pub const N: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U(pub [u64; N]);

impl U {
    pub const ZERO: U = U([0; N]);
    pub fn from(x: u128) -> U {
        let mut r = [0; N];
        r[0] = x as u64;
        r[1] = (x >> 64) as u64;
        U(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|&x| x == 0)
    }
    pub fn len(&self) -> usize {
        let mut n = N;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    pub fn bits(&self) -> u32 {
        let n = self.len();
        if n == 0 {
            0
        } else {
            n as u32 * 64 - self.0[n - 1].leading_zeros()
        }
    }
    pub fn add(&self, o: &U) -> U {
        let mut r = [0; N];
        let mut c = 0u128;
        for i in 0..N {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0, "harness: U add overflow");
        U(r)
    }
    pub fn sub(&self, o: &U) -> U {
        let mut r = [0; N];
        let mut b = false;
        for i in 0..N {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(b as u64);
            r[i] = x;
            b = b1 || b2;
        }
        assert!(!b, "harness: U sub underflow");
        U(r)
    }
    pub fn mul(&self, o: &U) -> U {
        let (n, m) = (self.len(), o.len());
        let mut r = [0u64; N];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..m {
                let t = self.0[i] as u128 * o.0[j] as u128 + if i + j < N { r[i + j] } else { 0 } as u128 + c;
                if i + j < N {
                    r[i + j] = t as u64;
                } else {
                    assert!(t as u64 == 0, "harness: U mul overflow");
                }
                c = t >> 64;
            }
            if i + m < N {
                r[i + m] = c as u64;
            } else {
                assert!(c == 0, "harness: U mul overflow");
            }
        }
        U(r)
    }
    pub fn mulu(&self, o: u128) -> U {
        self.mul(&U::from(o))
    }
    pub fn shl(&self, s: u32) -> U {
        assert!(self.bits() + s <= 64 * N as u32, "harness: U shl overflow");
        let (w, b) = ((s / 64) as usize, s % 64);
        let mut r = [0u64; N];
        for i in (w..N).rev() {
            r[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                r[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        U(r)
    }
    /// Plain binary long division, deliberately unlike the library's.
    pub fn divrem(&self, d: &U) -> (U, U) {
        assert!(!d.is_zero());
        if self.len() <= 2 && d.len() <= 2 {
            let (a, b) = (self.u128().unwrap(), d.u128().unwrap());
            return (U::from(a / b), U::from(a % b));
        }
        let mut q = U::ZERO;
        let mut r = U::ZERO;
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            r.0[0] |= (self.0[(i / 64) as usize] >> (i % 64)) & 1;
            if r.cmp(d) != Ordering::Less {
                r = r.sub(d);
                q.0[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn u128(&self) -> Option<u128> {
        if self.len() <= 2 {
            Some(self.0[0] as u128 | (self.0[1] as u128) << 64)
        } else {
            None
        }
    }
}

impl Ord for U {
    fn cmp(&self, o: &U) -> Ordering {
        for i in (0..N).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}
impl PartialOrd for U {
    fn partial_cmp(&self, o: &U) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

/// Sign and magnitude; zero is never negative.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct I {
    pub neg: bool,
    pub mag: U,
}

impl I {
    pub fn new(neg: bool, mag: U) -> I {
        I {
            neg: neg && !mag.is_zero(),
            mag,
        }
    }
    pub fn from(x: i128) -> I {
        I::new(x < 0, U::from(x.unsigned_abs()))
    }
    pub fn neg(&self) -> I {
        I::new(!self.neg, self.mag)
    }
    pub fn add(&self, o: &I) -> I {
        if self.neg == o.neg {
            I::new(self.neg, self.mag.add(&o.mag))
        } else if self.mag >= o.mag {
            I::new(self.neg, self.mag.sub(&o.mag))
        } else {
            I::new(o.neg, o.mag.sub(&self.mag))
        }
    }
    pub fn sub(&self, o: &I) -> I {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &I) -> I {
        I::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    pub fn signum(&self) -> i32 {
        if self.mag.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn i128(&self) -> Option<i128> {
        let m = self.mag.u128()?;
        if self.neg {
            if m <= 1 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }
}
impl Ord for I {
    fn cmp(&self, o: &I) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}
impl PartialOrd for I {
    fn partial_cmp(&self, o: &I) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Floor,
    Nearest,
    Ceil,
}
pub const MODES: [Mode; 3] = [Mode::Floor, Mode::Nearest, Mode::Ceil];

/// `num / den` rounded; ties of `Nearest` go away from zero. Plain long division.
pub fn div_round(num: &I, den: &I, mode: Mode) -> I {
    let neg = num.neg != den.neg;
    let (q, r) = num.mag.divrem(&den.mag);
    let up = match mode {
        _ if r.is_zero() => false,
        Mode::Floor => neg,
        Mode::Ceil => !neg,
        Mode::Nearest => r.shl(1) >= den.mag,
    };
    I::new(neg, if up { q.add(&U::from(1)) } else { q })
}

/// Is `r` the quotient `num / den` correctly rounded? Uses multiplication only.
pub fn is_rounded(num: &I, den: &I, mode: Mode, r: &I) -> bool {
    // normalize to a positive denominator
    let num = if den.neg { num.neg() } else { *num };
    let den = I::new(false, den.mag);
    let one = I::from(1);
    match mode {
        Mode::Floor => r.mul(&den) <= num && num < r.add(&one).mul(&den),
        Mode::Ceil => r.mul(&den) >= num && num > r.sub(&one).mul(&den),
        Mode::Nearest => {
            let d2 = num.sub(&r.mul(&den));
            let d2 = I::new(d2.neg, d2.mag.shl(1));
            match d2.mag.cmp(&den.mag) {
                Ordering::Less => true,
                Ordering::Greater => false,
                // a tie: the result has to be farther from zero than the quotient
                Ordering::Equal => r.signum() != 0 && (r.neg == num.neg) && (d2.neg != num.neg),
            }
        }
    }
}

pub fn pow10(p: u32) -> U {
    let mut r = U::from(1);
    for _ in 0..p {
        r = r.mulu(10);
    }
    r
}

/// Exact value `m * 2^e` of a finite float.
pub fn f64_parts(x: f64) -> (bool, u64, i32) {
    let raw = x.to_bits();
    let e = ((raw >> 52) & 0x7ff) as i32;
    let m = raw & 0xf_ffff_ffff_ffff;
    if e == 0 {
        (raw >> 63 == 1, m, -1074)
    } else {
        (raw >> 63 == 1, m | 1 << 52, e - 1075)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::gen::Gen;

    fn rnd(g: &mut Gen, bits: u32) -> U {
        let b = g.below(bits as u64 + 1) as u32;
        let mut x = U::ZERO;
        for i in 0..b {
            x.0[(i / 64) as usize] |= (g.next() & 1) << (i % 64);
        }
        if g.chance(1, 3) {
            for i in 0..N {
                if g.chance(1, 2) && (i as u32) < b / 64 {
                    x.0[i] = *g.pick(&[0, 1, u64::MAX, 1 << 63, u64::MAX - 1]);
                }
            }
        }
        x
    }

    #[test]
    fn div_inverts_mul() {
        let mut g = Gen::new(1);
        for _ in 0..20000 {
            let d = rnd(&mut g, 256);
            if d.is_zero() {
                continue;
            }
            let a = rnd(&mut g, 500);
            let (q, r) = a.divrem(&d);
            assert!(r < d);
            assert_eq!(q.mul(&d).add(&r), a);
        }
    }
    #[test]
    fn small_agree_with_i128() {
        let mut g = Gen::new(2);
        for _ in 0..200000 {
            let (a, b) = (g.signed(63), g.signed(63));
            let (x, y) = (I::from(a), I::from(b));
            assert_eq!(x.add(&y).i128(), Some(a + b));
            assert_eq!(x.sub(&y).i128(), Some(a - b));
            assert_eq!(x.mul(&y).i128(), Some(a * b));
            assert_eq!(x.cmp(&y), a.cmp(&b));
            if b != 0 {
                let f = a.div_euclid(b.abs());
                let f = if b < 0 { (-a).div_euclid(-b) } else { f };
                let c = if f * b == a { f } else { f + 1 };
                assert_eq!(div_round(&x, &y, Mode::Floor).i128(), Some(f));
                assert_eq!(div_round(&x, &y, Mode::Ceil).i128(), Some(c));
                let n = div_round(&x, &y, Mode::Nearest).i128().unwrap();
                let two = (2 * (a - f * b)).abs();
                let want = match two.cmp(&b.abs()) {
                    Ordering::Less => f,
                    Ordering::Greater => c,
                    Ordering::Equal => {
                        if (a < 0) != (b < 0) {
                            f
                        } else {
                            c
                        }
                    }
                };
                assert_eq!(n, want, "{a}/{b}");
                for m in MODES {
                    let r = div_round(&x, &y, m);
                    assert!(is_rounded(&x, &y, m, &r));
                    for d in [-2i128, -1, 1, 2] {
                        assert!(!is_rounded(&x, &y, m, &r.add(&I::from(d))), "{a}/{b} {m:?} {d}");
                    }
                }
            }
        }
    }
    #[test]
    fn wide_rounding_is_unique() {
        let mut g = Gen::new(3);
        for _ in 0..20000 {
            let d = I::new(g.bool(), rnd(&mut g, 128));
            if d.signum() == 0 {
                continue;
            }
            let mut n = I::new(g.bool(), rnd(&mut g, 380));
            if g.bool() {
                // a tie or a near tie
                let q = I::new(g.bool(), rnd(&mut g, 127));
                n = q.mul(&d).add(&I::new(g.bool(), U::from(d.mag.u128().unwrap() / 2 + g.below(2) as u128)));
            }
            for m in MODES {
                let r = div_round(&n, &d, m);
                assert!(is_rounded(&n, &d, m, &r), "{n:?} {d:?} {m:?}");
                for k in [-2i128, -1, 1, 2] {
                    assert!(!is_rounded(&n, &d, m, &r.add(&I::from(k))));
                }
            }
        }
    }
    #[test]
    fn floats() {
        for x in [1.0, 0.1, 5e-324, 1.7e308, 123456.789, 2.2250738585072014e-308] {
            let (s, m, e) = f64_parts(x);
            assert!(!s);
            assert_eq!(m as f64 * 2f64.powi(e / 2) * 2f64.powi(e - e / 2), x);
        }
    }
}
