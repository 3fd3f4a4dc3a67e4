//! Decimal texts: an independent grammar and generators.
use crate::gen::{dict, Gen, Ty};

/// The canonical text of `raw * 10^-prec`, by plain digit shuffling.
pub fn canonical(raw: i128, prec: u32) -> String {
    let mut d = raw.unsigned_abs().to_string();
    let p = prec as usize;
    while d.len() <= p {
        d.insert(0, '0');
    }
    let (int, frac) = d.split_at(d.len() - p);
    let mut frac = frac.to_string();
    while frac.ends_with('0') {
        frac.pop();
    }
    if frac.is_empty() {
        frac.push('0');
    }
    format!("{}{}.{}", if raw < 0 { "-" } else { "" }, int, frac)
}

/// An optionally signed decimal: digits, and optionally '.' with digits.
pub struct Decimal {
    pub negative: bool,
    pub integral: Vec<u8>,
    pub fraction: Vec<u8>,
}
impl Decimal {
    pub fn read(s: &str) -> Option<Decimal> {
        let chars: Vec<char> = s.chars().collect();
        let (mut from, mut to) = (0, chars.len());
        while from < to && chars[from].is_whitespace() {
            from += 1;
        }
        while from < to && chars[to - 1].is_whitespace() {
            to -= 1;
        }
        let mut d = Decimal {
            negative: false,
            integral: vec![],
            fraction: vec![],
        };
        let mut point = false;
        for (i, c) in chars[from..to].iter().enumerate() {
            match c {
                '+' | '-' if i == 0 => d.negative = *c == '-',
                '.' if !point && !d.integral.is_empty() => point = true,
                '0'..='9' => {
                    let digit = *c as u8 - b'0';
                    if point {
                        d.fraction.push(digit)
                    } else {
                        d.integral.push(digit)
                    }
                }
                _ => return None,
            }
        }
        if d.integral.is_empty() || (point && d.fraction.is_empty()) {
            return None;
        }
        Some(d)
    }
    /// Denotes a multiple of 10^-prec.
    pub fn exact(&self, prec: u32) -> bool {
        self.fraction.iter().skip(prec as usize).all(|d| *d == 0)
    }
    /// In units of 10^-prec, rounded half away from zero; `None` when beyond i128.
    pub fn rounded(&self, prec: u32) -> Option<i128> {
        let p = prec as usize;
        let mut x = 0u128;
        let kept = self.integral.iter().copied().chain((0..p).map(|i| self.fraction.get(i).copied().unwrap_or(0)));
        for d in kept {
            x = x.checked_mul(10)?.checked_add(d as u128)?;
        }
        if self.fraction.get(p).is_some_and(|d| *d >= 5) {
            x = x.checked_add(1)?;
        }
        if self.negative {
            if x <= 1 << 127 {
                Some((x as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(x).ok()
        }
    }
}

/// A decimal text that is usually well formed.
pub fn decimal(g: &mut Gen, t: Ty, exact: bool) -> String {
    let p = t.prec as usize;
    let mut s = match g.below(8) {
        0 => {
            // the bounds, possibly with a step more than fits
            let m = if g.bool() { t.max() as u128 } else { t.min().unsigned_abs() };
            let m = m.wrapping_add(g.range(-2, 3) as u128);
            let mut d = m.to_string();
            while d.len() <= p {
                d.insert(0, '0');
            }
            let at = d.len() - p;
            let sign = if g.bool() { "-" } else { "" };
            let (i, f) = d.split_at(at);
            if p == 0 {
                format!("{}{}", sign, i)
            } else {
                format!("{}{}.{}", sign, i, f)
            }
        }
        1 => {
            // free digit counts
            let mut s = String::new();
            if g.chance(1, 2) {
                s.push(if g.bool() { '-' } else { '+' });
            }
            let hi = if g.chance(1, 8) { 60 } else { t.digits() as i64 + 2 - p as i64 };
            let n = g.range(1, hi.max(2));
            digits(g, n as usize, &mut s);
            if g.chance(3, 4) {
                s.push('.');
                let n = if g.chance(1, 8) { g.range(1, 60) } else { g.range(1, p as i64 + 4) };
                digits(g, n as usize, &mut s);
            }
            s
        }
        _ => {
            let x = t.val(g);
            let c = canonical(x, t.prec);
            if g.chance(1, 6) && c.ends_with(".0") {
                c[..c.len() - 2].to_string()
            } else {
                c
            }
        }
    };
    if let Some(d) = dict() {
        if g.chance(1, 10) {
            if let Some(w) = d.text(g) {
                // alone, in front, or behind
                s = match g.below(4) {
                    0 => w,
                    1 if !s.contains('.') => format!("{s}.{}", w.trim_start_matches('-')),
                    1 => format!("{s}{}", w.trim_start_matches('-')),
                    2 => format!("{w}{}", s.trim_start_matches(['-', '+'])),
                    _ => format!("{w}.{}", s.trim_start_matches(['-', '+']).replace('.', "")),
                };
            }
        }
    }
    // digits beyond the precision
    if g.chance(if exact { 1 } else { 2 }, 3) {
        if !s.contains('.') {
            s.push('.');
        }
        let have = s.len() - s.find('.').unwrap() - 1;
        for _ in have..p {
            s.push('0');
        }
        let tail = *g.pick(&[
            "0",
            "00",
            "4",
            "5",
            "6",
            "49",
            "50",
            "51",
            "45",
            "499999999999",
            "5000000000000",
            "500000000001",
            "05",
            "09",
            "9",
            "99",
            "000000000000000000000000000000000000000000001",
        ]);
        s.push_str(tail);
        if g.chance(1, 4) {
            let n = g.below(30) as usize;
            digits(g, n, &mut s);
        }
    }
    if g.chance(1, 10) {
        let at = usize::from(s.starts_with(['-', '+']));
        for _ in 0..g.range(1, 5) {
            s.insert(at, '0');
        }
    }
    if g.chance(1, 80) {
        s = long(g, s);
    }
    if g.chance(1, 10) && !s.starts_with(['-', '+']) {
        s.insert(0, '+');
    }
    if g.chance(1, 10) {
        for _ in 0..g.range(1, 3) {
            let w = *g.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}']);
            if g.bool() {
                s.insert(0, w)
            } else {
                s.push(w)
            }
        }
    }
    s
}

/// A part of the text is extended to a length next to a power of two.
fn long(g: &mut Gen, s: String) -> String {
    let n = if g.chance(1, 40) { 1 << 16 } else { 1usize << g.range(5, 12) };
    let n = n + g.below(7) as usize - 3;
    let at = usize::from(s.starts_with(['-', '+']));
    let (sign, s) = s.split_at(at);
    let (int, frac) = s.split_once('.').unwrap_or((s, "0"));
    let fill = |g: &mut Gen, have: usize| {
        let d = *g.pick(&["0", "0", "0", "9", "4", "5"]);
        d.repeat(n.saturating_sub(have))
    };
    match g.below(4) {
        0 => format!("{sign}{}{int}.{frac}", "0".repeat(n.saturating_sub(int.len()))),
        1 => format!("{}{sign}{s}", " ".repeat(n)),
        2 => format!("{sign}{int}.{frac}{}", fill(g, frac.len())),
        // the whole text
        _ => format!("{sign}{int}.{frac}{}", fill(g, at + int.len() + 1 + frac.len())),
    }
}

fn digits(g: &mut Gen, n: usize, s: &mut String) {
    let style = g.below(4);
    for _ in 0..n {
        s.push(match style {
            0 => '0',
            1 => '9',
            _ => (b'0' + g.below(10) as u8) as char,
        });
    }
}

/// One random edit.
pub fn mutate(g: &mut Gen, s: String) -> String {
    const ODD: [char; 34] = [
        '.',
        '.',
        '-',
        '+',
        'e',
        'E',
        '_',
        ',',
        ' ',
        '0',
        '5',
        '9',
        'x',
        '/',
        ':',
        '\0',
        '\u{a0}',
        '\u{200b}',
        '\u{feff}',
        '٣',
        '५',
        '５',
        '−',
        '½',
        '²',
        '\u{2028}',
        'i',
        'n',
        'f',
        'N',
        'a',
        '\'',
        '"',
        '\u{10ffff}',
    ];
    let mut c: Vec<char> = s.chars().collect();
    let at = g.below(c.len() as u64 + 1) as usize;
    let w = if g.chance(1, 8) {
        char::from_u32(g.below(0x11_0000) as u32).unwrap_or('?')
    } else {
        *g.pick(&ODD)
    };
    if let Some(d) = dict() {
        if g.chance(1, 4) {
            if let Some(w) = d.text(g) {
                c.splice(at..at, w.chars());
                return c.into_iter().collect();
            }
        }
    }
    match g.below(5) {
        0 if at < c.len() => {
            c.remove(at);
        }
        1 if at < c.len() => c[at] = w,
        2 if at < c.len() => c.truncate(at),
        3 if at < c.len() => {
            let k = g.below(c.len() as u64) as usize;
            c.swap(at, k);
        }
        _ => c.insert(at, w),
    }
    c.into_iter().collect()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn grammar() {
        for (s, p, want) in [
            ("1", 2, Some(100)),
            (" -1.5 ", 2, Some(-150)),
            ("+0.005", 2, Some(1)),
            ("-0.0049", 2, Some(0)),
            ("1.", 2, None),
            (".1", 2, None),
            ("", 2, None),
            ("-", 2, None),
            ("1.2.3", 2, None),
            ("1e3", 2, None),
            ("--1", 2, None),
            ("1-", 2, None),
        ] {
            assert_eq!(Decimal::read(s).and_then(|d| d.rounded(p)), want, "{s}");
        }
        assert_eq!(canonical(-5, 2), "-0.05");
        assert_eq!(canonical(1200, 2), "12.0");
        assert_eq!(canonical(i128::MIN, 0), "-170141183460469231731687303715884105728.0");
    }
}
