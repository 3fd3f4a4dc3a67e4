//! Seeded source of every random choice, and integer generators shaped for fixed-point types.
use std::sync::OnceLock;

/// Constants of the tested source, offered as inputs: see tools/dictionary.py.
pub struct Dict {
    ints: Vec<i128>,
    floats: Vec<f64>,
    pub texts: Vec<String>,
}
static DICT: OnceLock<Option<Dict>> = OnceLock::new();

pub fn dict() -> Option<&'static Dict> {
    DICT.get_or_init(|| Dict::read(&std::env::var("FX_DICT").ok()?)).as_ref()
}

impl Dict {
    fn read(list: &str) -> Option<Dict> {
        let mut d = Dict {
            ints: vec![],
            floats: vec![],
            texts: vec![],
        };
        for w in list.split(',').filter(|w| !w.is_empty()) {
            let (kind, w) = w.split_at(1);
            match kind {
                "i" => d.ints.push(w.parse().expect("FX_DICT: integer")),
                "f" => d.floats.push(f64::from_bits(w.parse().expect("FX_DICT: float"))),
                _ => {
                    let byte = |i| u8::from_str_radix(&w[i..i + 2], 16).expect("FX_DICT: text");
                    let bytes = (0..w.len()).step_by(2).map(byte).collect::<Vec<u8>>();
                    d.texts.push(String::from_utf8_lossy(&bytes).into_owned());
                }
            }
        }
        if d.ints.is_empty() && d.floats.is_empty() && d.texts.is_empty() {
            return None;
        }
        Some(d)
    }

    /// A value made of one or two of the constants.
    fn value(&self, g: &mut Gen, t: Ty) -> Option<i128> {
        if self.ints.is_empty() {
            return None;
        }
        let c = *g.pick(&self.ints);
        let e = *g.pick(&self.ints);
        let d = g.below(5) as i128 - 2;
        let k = (g.u128() as i128) >> (127 - g.below(t.bits as u64));
        let x = match g.below(18) {
            0 | 1 => c.checked_add(d),
            2 => c.checked_neg()?.checked_add(d),
            3 => c.checked_mul(t.coef())?.checked_add(d),
            4 => c.checked_mul(-t.coef())?.checked_add(d),
            5 => c.checked_mul(pow10(g.below(t.digits() as u64 + 1) as u32)),
            6 => 1i128.checked_shl(u32::try_from(c).ok()?)?.checked_add(d),
            7 => 10i128.checked_pow(u32::try_from(c).ok()?)?.checked_add(d),
            8 => k.checked_div(c)?.checked_mul(c)?.checked_add(d),
            9 => k.checked_div(c)?.checked_mul(c)?.checked_add(e),
            10 => Some(k & !c | e & c),
            11 => c.checked_mul(e)?.checked_add(d),
            12 => c.checked_shl(u32::try_from(e).ok()?),
            13 => t.max().checked_sub(c)?.checked_add(d),
            14 => t.min().checked_add(c)?.checked_add(d),
            15 => c.checked_mul(1 + g.below(12) as i128)?.checked_add(d),
            16 => e.checked_sub(c)?.checked_mul(g.below(1000) as i128)?.checked_div(1000)?.checked_add(c),
            _ => c.checked_add(e),
        };
        x.filter(|x| t.has(*x)).map(|x| {
            if g.chance(1, 6) {
                x.checked_neg().filter(|x| t.has(*x)).unwrap_or(x)
            } else {
                x
            }
        })
    }

    fn float(&self, g: &mut Gen, t: Ty) -> Option<f64> {
        if self.floats.is_empty() && self.ints.is_empty() {
            return None;
        }
        let x = if !self.floats.is_empty() && (self.ints.is_empty() || g.bool()) {
            *g.pick(&self.floats)
        } else {
            let c = *g.pick(&self.ints);
            let small = c.clamp(-2000, 2000) as i32;
            match g.below(8) {
                0 | 1 => c as f64,
                2 => dbl(format!("{}e-{}", c, g.below(t.prec as u64 + 3))),
                3 => c as f64 * 2f64.powi(g.range(-80, 80) as i32),
                4 => f64::from_bits(c as u64),
                // the exponent or the mantissa
                5 => (1.0 + (g.next() >> 12) as f64 / (1u64 << 52) as f64) * 2f64.powi(small),
                6 => f64::from_bits((g.next() >> 12) | (small.rem_euclid(2048) as u64) << 52),
                _ => dbl(format!("{}e{}", 1 + g.below(9999), small)),
            }
        };
        let x = if g.bool() { x } else { ulps(x, g.below(7) as i64 - 3) };
        Some(if g.bool() { x } else { -x })
    }

    fn among(&self, g: &mut Gen, lo: i64, hi: i64) -> Option<i64> {
        let ok = |x: &i128| *x >= lo as i128 && *x <= hi as i128;
        if self.ints.is_empty() {
            return None;
        }
        let c = *g.pick(&self.ints);
        let x = c.checked_add(g.below(3) as i128 - 1)?;
        let x = if g.chance(1, 4) { x.checked_neg()? } else { x };
        Some(x).filter(ok).map(|x| x as i64)
    }

    /// The digits of a constant, or a text.
    pub fn text(&self, g: &mut Gen) -> Option<String> {
        if !self.texts.is_empty() && (self.ints.is_empty() || g.bool()) {
            return Some(g.pick(&self.texts).clone());
        }
        let c = *g.pick(&self.ints);
        Some(c.to_string())
    }
}

#[derive(Clone)]
pub struct Gen {
    s: [u64; 4],
    /// Choices made by a fuzzer, read before any from the generator.
    tape: Option<Tape>,
}

#[derive(Clone)]
struct Tape {
    bytes: Vec<u8>,
    at: usize,
}
impl Tape {
    /// The next `n` bytes, if there are as many.
    fn take(&mut self, n: usize) -> Option<u64> {
        let b = self.bytes.get(self.at..self.at + n)?;
        self.at += n;
        Some(b.iter().rev().fold(0, |x, b| x << 8 | *b as u64))
    }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn pow10(p: u32) -> i128 {
    10i128.pow(p)
}

impl Gen {
    pub fn new(seed: u64) -> Gen {
        let mut x = seed ^ 0x5851_f42d_4c95_7f2d;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Gen { s, tape: None }
    }
    /// Every choice comes from `bytes`, then, when these run out, from a fixed seed.
    pub fn from_tape(bytes: &[u8]) -> Gen {
        let bytes = bytes.to_vec();
        Gen {
            tape: Some(Tape { bytes, at: 0 }),
            ..Gen::new(0)
        }
    }
    /// xoshiro256**
    pub fn next(&mut self) -> u64 {
        if let Some(x) = self.tape.as_mut().and_then(|t| t.take(8)) {
            return x;
        }
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if let Some(t) = &mut self.tape {
            let width = if n <= 1 << 8 {
                1
            } else if n <= 1 << 16 {
                2
            } else {
                8
            };
            if let Some(x) = t.take(width) {
                return x % n;
            }
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Inclusive.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if let Some(d) = dict() {
            if self.chance(1, 12) {
                if let Some(x) = d.among(self, lo, hi) {
                    return x;
                }
            }
        }
        (lo as i128 + self.below((hi as i128 - lo as i128 + 1) as u64) as i128) as i64
    }
    pub fn below128(&mut self, n: u128) -> u128 {
        assert!(n > 0);
        self.u128() % n
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.below(x.len() as u64) as usize]
    }
    /// Magnitude with a uniformly chosen number of bits (0..=bits).
    pub fn mag(&mut self, bits: u32) -> u128 {
        let b = self.below(bits as u64 + 1) as u32;
        if b == 0 {
            return 0;
        }
        let x = self.u128();
        (x >> (128 - b)) | 1 << (b - 1)
    }
    pub fn signed(&mut self, bits: u32) -> i128 {
        if let Some(d) = dict() {
            if self.chance(1, 12) {
                if let Some(x) = d.value(self, Ty { bits: 128, prec: 0 }) {
                    if x.unsigned_abs() >> bits.min(127) == 0 {
                        return x;
                    }
                }
            }
        }
        let m = self.mag(bits.min(127)) as i128;
        if self.bool() {
            -m
        } else {
            m
        }
    }
    /// Limb-structured pattern of up to 127 bits: hits carries and quotient corrections.
    pub fn limbs(&mut self) -> i128 {
        let limb = |g: &mut Gen| -> u64 {
            match g.below(9) {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << 63,
                3 => g.below(4),
                4 => u64::MAX - g.below(4),
                5 => (1 << 63) - 1 - g.below(2),
                6 => 1u64 << g.below(64),
                7 => (1 << 32) + g.below(3) - 1,
                _ => g.next(),
            }
        };
        let lo = limb(self) as u128;
        let hi = limb(self) as u128 & (u64::MAX as u128 >> 1);
        let x = (hi << 64 | lo) as i128;
        if self.bool() {
            x
        } else {
            -x
        }
    }
}

/// A fixed-point type as the generators see it.
#[derive(Clone, Copy, Debug)]
pub struct Ty {
    pub bits: u32,
    pub prec: u32,
}

impl Ty {
    pub fn max(&self) -> i128 {
        i128::MAX >> (128 - self.bits)
    }
    pub fn min(&self) -> i128 {
        -self.max() - 1
    }
    pub fn coef(&self) -> i128 {
        pow10(self.prec)
    }
    pub fn has(&self, x: i128) -> bool {
        x >= self.min() && x <= self.max()
    }
    pub fn clamp(&self, x: i128) -> i128 {
        x.max(self.min()).min(self.max())
    }
    /// The number of decimal digits of MAX minus one: 10^digits fits.
    pub fn digits(&self) -> u32 {
        match self.bits {
            8 => 2,
            16 => 4,
            32 => 9,
            64 => 18,
            128 => 38,
            _ => unreachable!(),
        }
    }
    fn sat(&self, x: Option<i128>, g: &mut Gen) -> i128 {
        match x {
            Some(x) if self.has(x) => x,
            _ => self.edge(g),
        }
    }
    pub fn edge(&self, g: &mut Gen) -> i128 {
        let d = g.below(4) as i128;
        match g.below(8) {
            0 => self.max() - d,
            1 => self.min() + d,
            2 => self.max() / 2 + d - 2,
            3 => self.min() / 2 + d - 2,
            4 => self.clamp(self.coef().saturating_add(d - 2)),
            5 => self.clamp((-self.coef()).saturating_add(d - 2)),
            _ => {
                if g.bool() {
                    d
                } else {
                    -d
                }
            }
        }
    }
    /// A raw value of the type, mixing magnitudes, edges and decimal/binary structure.
    pub fn val(&self, g: &mut Gen) -> i128 {
        if let Some(d) = dict() {
            if g.chance(1, 8) {
                if let Some(x) = d.value(g, *self) {
                    return x;
                }
            }
        }
        let coef = self.coef();
        let small = g.range(-3, 3) as i128;
        let x = match g.below(16) {
            0 | 1 => Some(self.edge(g)),
            2 => {
                // 10^k and its neighbours
                let p = pow10(g.below(self.digits() as u64 + 1) as u32);
                let m = *g.pick(&[1i128, 1, 1, 2, 5, 9]);
                (p * if p < 1 << 120 { m } else { 1 } * if g.bool() { 1 } else { -1 }).checked_add(small)
            }
            3 => {
                let p = 1i128 << g.below(self.bits as u64 - 1);
                (if g.bool() { p } else { -p }).checked_add(small)
            }
            4 => g
                .signed(self.bits - 1)
                .checked_div(coef)
                .and_then(|n| n.checked_mul(coef))
                .and_then(|x| x.checked_add(small)),
            5 => {
                // half way between integers, and neighbours
                let n = g.signed(self.bits - 1) / coef;
                let h = coef / 2 * if n < 0 || (n == 0 && g.bool()) { -1 } else { 1 };
                n.checked_mul(coef).and_then(|x| x.checked_add(h)).and_then(|x| x.checked_add(small))
            }
            6 => {
                // few significant digits
                let m = g.signed(20);
                m.checked_mul(pow10(g.below(self.digits() as u64 + 1) as u32))
            }
            7 | 8 if self.bits == 128 => Some(g.limbs()),
            7 => {
                // half-width structured
                let h = self.bits / 2;
                let w = |g: &mut Gen| *g.pick(&[0i128, 1, (1 << h) - 1, 1 << (h - 1), (1 << (h - 1)) - 1, (1 << h) - 2]);
                let lo = if g.bool() { w(g) } else { g.below128(1 << h) as i128 };
                let hi = if g.bool() { w(g) } else { g.below128(1 << h) as i128 };
                let x = ((hi << h | lo) << (128 - self.bits)) >> (128 - self.bits);
                Some(x)
            }
            9 | 10 => Some((g.u128() as i128) >> (128 - self.bits)),
            _ => Some(g.signed(self.bits - 1)),
        };
        self.sat(x, g)
    }
}

/// The closest double to the decimal `text`.
fn dbl(text: String) -> f64 {
    text.parse().expect("harness: float text")
}

/// Moves by `d` representable doubles (same sign).
pub fn ulps(x: f64, d: i64) -> f64 {
    f64::from_bits((x.to_bits() as i64).wrapping_add(d) as u64)
}

/// A double, shaped for conversion into `t`.
pub fn float(g: &mut Gen, t: Ty) -> f64 {
    let sign = |g: &mut Gen, x: f64| if g.bool() { x } else { -x };
    let nudge = |g: &mut Gen, x: f64| {
        if g.chance(1, 3) {
            let d = if g.bool() { g.range(-3, 3) } else { g.range(-40, 40) };
            ulps(x, d)
        } else {
            x
        }
    };
    if let Some(d) = dict() {
        if g.chance(1, 8) {
            if let Some(x) = d.float(g, t) {
                return x;
            }
        }
    }
    match g.below(14) {
        0 => f64::from_bits(g.next()),
        1 | 2 => {
            // random mantissa, exponent within the type's reach
            let lo = -(t.prec as i64 * 10 / 3) - 6;
            let hi = t.bits as i64 - t.prec as i64 * 10 / 3 + 2;
            let e = g.range(lo, hi.max(lo + 1));
            f64::from_bits((g.next() >> 12) | (((e + 1023) as u64) << 52) | (g.next() & 1) << 63)
        }
        3 | 4 => {
            // few significant decimal digits
            let bits = 1 + g.below(57) as u32;
            let m = g.mag(bits) % 10u128.pow(g.range(1, 17) as u32);
            let q = g.range(-4, t.prec as i64 + 3);
            let x = dbl(format!("{}e{}", m, -q));
            let x = nudge(g, x);
            sign(g, x)
        }
        5 => {
            let x = dbl(format!("{}e-{}", t.val(g), t.prec));
            nudge(g, x)
        }
        6 | 7 | 8 => {
            // between two steps of the type, near the rounding thresholds
            let bits = 1 + g.below(50) as u32;
            let n = g.mag(bits.min(t.bits - 1));
            let f = *g.pick(&[
                "4",
                "44",
                "444",
                "4444",
                "44444",
                "445",
                "45",
                "449999999",
                "4999999999",
                "5",
                "50000000001",
                "51",
                "54",
                "55",
                "555",
                "5555",
                "5556",
                "56",
                "1",
                "9",
                "99999",
                "49999",
                "444444444444",
                "05",
                "95",
                "94999999",
                "0000001",
                "999999999",
            ]);
            let x = dbl(format!("{}.{}e-{}", n, f, t.prec));
            let x = nudge(g, x);
            sign(g, x)
        }
        9 | 10 => {
            // the bounds
            let x = if g.bool() { t.max() } else { t.min() };
            let x = dbl(format!("{}.{}e-{}", x, g.below(10), t.prec));
            let d = if g.bool() { g.range(-4, 4) } else { g.signed(24) as i64 };
            ulps(x, d)
        }
        11 => {
            let x = *g.pick(&[
                f64::NAN,
                f64::INFINITY,
                f64::MAX,
                f64::MIN_POSITIVE,
                0.0,
                1.0,
                4.9e-324,
                0.1,
                0.5,
                1e15,
                1e16,
                9007199254740992.0,
                9007199254740991.0,
                1e22,
                1e23,
            ]);
            let x = if x.is_finite() { nudge(g, x) } else { x };
            sign(g, x)
        }
        12 => {
            // integers
            let x = g.mag(54) as f64;
            sign(g, x)
        }
        _ => {
            // powers of two and of ten with neighbours; dyadic fractions
            let x = match g.below(3) {
                0 => 2f64.powi(g.range(-140, 130) as i32),
                1 => dbl(format!("1e{}", g.range(-40, 40))),
                _ => g.mag(20) as f64 / 2f64.powi(g.below(40) as i32),
            };
            let x = nudge(g, x);
            sign(g, x)
        }
    }
}
