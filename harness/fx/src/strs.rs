//! C12-C14: text. The oracle is a small decimal grammar of its own.
use crate::arith::Res;
use crate::types::SPECS;
use crate::{fx, nfx, pick_ty, show_ty};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{Gen, Ty};
use fxcore::text::{canonical, decimal, mutate, Decimal};

pub struct Display;

/// Values whose text has a chosen number of leading and trailing zeros in the fraction.
fn shaped(g: &mut Gen, t: Ty) -> i128 {
    let x = match g.below(4) {
        0 => {
            let k = g.below(t.prec as u64 + 1) as u32;
            let z = g.below(t.prec as u64 + 1) as u32;
            let frac = g.below128(10u128.pow(k)) as i128 / 10i128.pow(z.min(k)) * 10i128.pow(z.min(k));
            let int = g.signed(t.bits - 1) / t.coef();
            int.saturating_mul(t.coef())
                .saturating_add(if int < 0 || (int == 0 && g.bool()) { -frac } else { frac })
        }
        1 => 10i128.pow(g.below(t.digits() as u64 + 1) as u32) * if g.bool() { 1 } else { -1 } + g.range(-1, 1) as i128,
        _ => t.val(g),
    };
    if t.has(x) {
        x
    } else {
        t.val(g)
    }
}

impl Prop for Display {
    fn sweep(&self, shard: u64, shards: u64, n: &mut u64) -> Option<Case> {
        crate::sweep::sweep("C12", shard, shards, n)
    }
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let a = shaped(g, t);
        match g.below(8) {
            0 => Case::new(ty, 1, &[a, g.below(SPECS as u64) as i128]),
            1 => Case::new(ty, 2, &[a, g.below(45) as i128, g.below(2) as i128]),
            _ => Case::new(ty, 0, &[a]),
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let a = c.v[0];
        if !t.has(a) {
            return cx.skip();
        }
        let want = canonical(a, t.prec);
        if c.op == 1 {
            cx.label("format flags");
            cx.nontrivial();
            let k = c.v[1].rem_euclid(SPECS as i128) as usize;
            let got = call(|| f.flagged(a, k))?;
            // the padding and the sign are free, the number is not
            let d = Decimal::read(got.trim_matches([' ', '*']).trim_start_matches('+'));
            if d.map(|d| d.exact(t.prec) && d.rounded(t.prec) == Some(a)) != Some(true) {
                return Err(format!("with format flags the text is {:?} instead of {:?}", got, want));
            }
            return Ok(());
        }
        if c.op == 2 {
            let room = c.v[1].clamp(0, 100) as usize;
            cx.label("a writer that fails");
            cx.nontrivial_if(room < want.len());
            let ok = call(|| f.limited(a, room, c.v[2] == 1))?;
            if ok != (room >= want.len()) {
                return Err(format!(
                    "a writer with room for {} of {} bytes, and the result is {}",
                    room,
                    want.len(),
                    if ok { "Ok" } else { "Err" }
                ));
            }
            return Ok(());
        }
        cx.label(if a % t.coef() == 0 { "integer" } else { "fraction" });
        cx.nontrivial_if(a % t.coef() != 0);
        let got = call(|| f.display(a))?;
        if got != want {
            return Err(format!("Display gives {:?}, expected {:?}", got, want));
        }
        let got = call(|| f.debug(a))?;
        if got != want {
            return Err(format!("Debug gives {:?}, expected {:?}", got, want));
        }
        let back = call(|| f.parse(&want))?;
        if back != Some(a) {
            return Err(format!("{:?} parses as {:?}", want, back));
        }
        let back = call(|| f.parse_exact(&want))?;
        if back != Some(a) {
            return Err(format!("{:?} parses exactly as {:?}", want, back));
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let how = match c.op {
            1 => format!(" with format flags {}", c.v[1]),
            2 => format!(" to a writer with {} bytes of room", c.v[1]),
            _ => String::new(),
        };
        format!("{} raw {} as text{}", show_ty(c.ty), c.v[0], how)
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..nfx() as u32 {
            let t = fx(ty).ty();
            if t.bits == 16 {
                for x in t.min()..=t.max() {
                    if x.rem_euclid(shards as i128) as u64 == shard && !f(Case::new(ty, 0, &[x])) {
                        return;
                    }
                }
            } else if ty as u64 % shards == shard {
                for x in [
                    t.max(),
                    t.min(),
                    0,
                    1,
                    -1,
                    t.coef(),
                    -t.coef(),
                    t.coef() - 1,
                    1 - t.coef(),
                    t.max() - 1,
                    t.min() + 1,
                ] {
                    if !f(Case::new(ty, 0, &[x])) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            400_000_000
        } else {
            8_000_000
        }
    }
    fn rule(&self) -> String {
        "values over 73 types: all i16 values, chosen numbers of leading and trailing zeros in the fraction, powers of ten and neighbours, log-uniform and edge values; both formats and both parsers; width, precision and flags (the number stays); writers that fail; non-trivial = has a fraction".into()
    }
}

pub struct Parse {
    pub exact: bool,
}

impl Prop for Parse {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (ty, t) = pick_ty(g, i);
        let mut s = decimal(g, t, self.exact);
        if g.chance(1, 4) {
            let n = g.range(1, 3);
            for _ in 0..n {
                s = mutate(g, s);
            }
        }
        Case::text(ty, 0, s.into_bytes())
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let f = fx(c.ty);
        let t = f.ty();
        let Ok(s) = std::str::from_utf8(&c.s[0]) else {
            return cx.skip();
        };
        let got = if self.exact { call(|| f.parse_exact(s))? } else { call(|| f.parse(s))? };
        let Some(d) = Decimal::read(s) else {
            cx.label("malformed");
            return match got {
                None => Ok(()),
                Some(x) => Err(format!("malformed text is read as raw {}", x)),
            };
        };
        cx.nontrivial();
        let rounded = d.rounded(t.prec).filter(|x| t.has(*x));
        let want = if d.exact(t.prec) { d.rounded(t.prec).filter(|x| t.has(*x)) } else { None };
        if d.fraction.len() as u32 > t.prec {
            cx.label("more digits than the precision");
        }
        cx.label(if rounded.is_some() { "representable after rounding" } else { "out of range" });
        if self.exact {
            let optional = d.fraction.len() as u32 > t.prec; // superfluous zeros may also be refused
            if got == want || (optional && got.is_none()) {
                return Ok(());
            }
            return Err(format!("got {:?}, expected {:?} (raw)", got, want));
        }
        if got != rounded {
            return Err(format!("got {:?}, expected {:?} (raw)", got, rounded));
        }
        let ex = call(|| f.parse_exact(s))?;
        if ex.is_some() && ex != got {
            return Err(format!("got {:?}, but {:?} from the exact parser", got, ex));
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        format!(
            "{} {} {:?}",
            show_ty(c.ty),
            if self.exact { "from_str_exact" } else { "parse" },
            String::from_utf8_lossy(&c.s[0])
        )
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        // every text of at most 4 characters over a small alphabet
        let alphabet = b"0159-+. e";
        let n = alphabet.len();
        for ty in 0..nfx() as u32 {
            if ty as u64 % shards != shard {
                continue;
            }
            let mut s = vec![];
            for len in 0..=4u32 {
                for mut k in 0..n.pow(len) {
                    s.clear();
                    for _ in 0..len {
                        s.push(alphabet[k % n]);
                        k /= n;
                    }
                    if !f(Case::text(ty, 0, s.clone())) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            400_000_000
        } else {
            10_000_000
        }
    }
    fn rule(&self) -> String {
        "texts over 73 types: every text of at most 4 characters over '0159-+. e'; decimals with chosen digit counts, next to MIN/MAX, ties and near ties, superfluous zeros, signs, Unicode whitespace and digits; up to three random edits; non-trivial = well formed".into()
    }
}
