//! A concrete generated case, independent of any generator, and its one-line text form.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    /// Index of the type under test in the property's type table.
    pub ty: u32,
    /// Operation (meaning defined by the property).
    pub op: u32,
    /// Integer arguments (raw values, exponents, float bits, modes, program steps, ...).
    pub v: Vec<i128>,
    /// Text or byte arguments.
    pub s: Vec<Vec<u8>>,
}

impl Case {
    pub fn new(ty: u32, op: u32, v: &[i128]) -> Case {
        Case {
            ty,
            op,
            v: v.to_vec(),
            s: vec![],
        }
    }
    pub fn text(ty: u32, op: u32, s: Vec<u8>) -> Case {
        Case { ty, op, v: vec![], s: vec![s] }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut eat = |x: u64| {
            h = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            h ^= h >> 29;
        };
        eat(self.ty as u64 | (self.op as u64) << 32);
        for &x in &self.v {
            eat(x as u64);
            eat((x >> 64) as u64 ^ 0x55);
        }
        for s in &self.s {
            eat(s.len() as u64);
            for c in s.chunks(8) {
                let mut b = [0; 8];
                b[..c.len()].copy_from_slice(c);
                eat(u64::from_le_bytes(b));
            }
        }
        h
    }
    pub fn line(&self) -> String {
        let mut o = format!("{} {} {} {}", self.ty, self.op, self.v.len(), self.s.len());
        for x in &self.v {
            let _ = write!(o, " {}", x);
        }
        for s in &self.s {
            o.push_str(" x");
            for b in s {
                let _ = write!(o, "{:02x}", b);
            }
        }
        o
    }
    pub fn parse(line: &str) -> Option<Case> {
        let mut it = line.split_whitespace();
        let ty = it.next()?.parse().ok()?;
        let op = it.next()?.parse().ok()?;
        let nv: usize = it.next()?.parse().ok()?;
        let ns: usize = it.next()?.parse().ok()?;
        let mut v = vec![];
        for _ in 0..nv {
            v.push(it.next()?.parse().ok()?);
        }
        let mut s = vec![];
        for _ in 0..ns {
            let h = it.next()?.strip_prefix('x')?;
            let mut b = vec![];
            for i in (0..h.len()).step_by(2) {
                b.push(u8::from_str_radix(h.get(i..i + 2)?, 16).ok()?);
            }
            s.push(b);
        }
        Some(Case { ty, op, v, s })
    }
    /// Simpler variants of this case, most aggressive first.
    pub fn shrinks(&self) -> Vec<Case> {
        let mut out = vec![];
        for (i, &x) in self.v.iter().enumerate() {
            let mut cand: Vec<i128> = vec![0, 1, -1];
            if x < 0 {
                cand.push(x.wrapping_neg());
            }
            for d in [1_000_000_000_000i128, 1000, 10, 2] {
                cand.push(x / d);
            }
            let mut p = 1i128;
            while p < x.checked_abs().unwrap_or(i128::MAX) / 10 {
                p *= 10;
                cand.push(x / p * p); // clear low digits
            }
            for s in [64, 32, 16, 8, 4, 1] {
                cand.push(x >> s << s);
            }
            cand.push(x - x.signum());
            let mut seen = vec![];
            for c in cand {
                let simpler = (c.unsigned_abs(), c < 0) < (x.unsigned_abs(), x < 0);
                if simpler && !seen.contains(&c) {
                    seen.push(c);
                    let mut k = self.clone();
                    k.v[i] = c;
                    out.push(k);
                }
            }
        }
        for (i, s) in self.s.iter().enumerate() {
            let n = s.len();
            let mut w = n;
            while w > 0 {
                let mut at = 0;
                while at + w <= n {
                    let mut k = self.clone();
                    k.s[i].drain(at..at + w);
                    out.push(k);
                    at += w;
                }
                w /= 2;
            }
            for j in 0..n {
                if s[j].is_ascii_digit() && s[j] != b'0' {
                    let mut k = self.clone();
                    k.s[i][j] = b'0';
                    out.push(k);
                }
            }
        }
        out
    }
    /// A form that costs an interpreter little to read.
    pub fn pack(&self) -> Vec<u8> {
        let mut o = vec![self.v.len() as u8, self.s.len() as u8];
        for x in [self.ty as i128, self.op as i128].iter().chain(&self.v) {
            o.extend(x.to_le_bytes());
        }
        for s in &self.s {
            o.extend((s.len() as i128).to_le_bytes());
            o.extend(s);
        }
        o
    }
    pub fn unpack(b: &mut &[u8]) -> Case {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> &'a [u8] {
            let (x, y) = b.split_at(n);
            *b = y;
            x
        }
        fn num(b: &mut &[u8]) -> i128 {
            i128::from_le_bytes(take(b, 16).try_into().expect("16"))
        }
        let n = take(b, 2);
        let (nv, ns) = (n[0], n[1]);
        let mut c = Case::new(num(b) as u32, num(b) as u32, &[]);
        for _ in 0..nv {
            c.v.push(num(b));
        }
        for _ in 0..ns {
            let n = num(b) as usize;
            c.s.push(take(b, n).to_vec());
        }
        c
    }
}
