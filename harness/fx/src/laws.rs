//! C27 and C28: laws that results obey among themselves, without an arithmetic of the oracle's own.
use crate::arith::Res;
use crate::types::{Fx, E, R};
use crate::{fx, mode_of, nfx, pick_ty, prim, show_r, show_ty};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{pow10, Gen, Ty};
use fxcore::text;
use fxcore::wide::Mode;

/// C27: how the modes relate, mirror images, monotony and inverses.
pub struct Laws;
/// C28: types that represent the same numbers agree.
pub struct Types;

const MUL: u32 = 0;
const DIV: u32 = 1;
const DIV_INT: u32 = 2;
const INT_DIV: u32 = 3;
const RECIP: u32 = 4;
const SQRT: u32 = 5;
const HALF: u32 = 6;
const INTEGRAL: u32 = 7;
const PRIM_DIV: u32 = 8;
const ADD: u32 = 9;
const SUB: u32 = 10;
const CMUL: u32 = 11;
const CMUL_REV: u32 = 12;
const NEG: u32 = 13;
const ABS: u32 = 14;
const NPT: u32 = 15;
const RTZ: u32 = 16;
const FLOOR: u32 = 17;
const CEIL: u32 = 18;
const ROUND: u32 = 19;
const SADD: u32 = 20;
const SSUB: u32 = 21;
const SMUL: u32 = 22;
const SMUL_REV: u32 = 23;
const SRMUL: u32 = 24;
const SIGNUM: u32 = 25;
const ORDER: u32 = 26;
const TEXT: u32 = 27;
const DECIMAL: u32 = 28;
const INT: u32 = 29;
const NAMES: [&str; 30] = [
    "rmul",
    "rdiv",
    "rdiv by an integer",
    "rdiv of an integer",
    "recip",
    "rsqrt",
    "half_sum",
    "integral",
    "primitive rdiv",
    "cadd",
    "csub",
    "cmul",
    "cmul (integer first)",
    "cneg",
    "abs",
    "next_power_of_ten",
    "round_towards_zero_by",
    "floor",
    "ceil",
    "round",
    "saturating_add",
    "saturating_sub",
    "saturating_mul",
    "saturating_mul (integer first)",
    "saturating_rmul",
    "signum",
    "order",
    "text",
    "decimal",
    "from integer",
];
/// The operations with a rounding mode.
const MODED: u32 = 9;

fn raw(f: &dyn Fx, op: u32, a: i128, b: i128, m: Mode) -> R {
    match op {
        MUL => f.rmul(a, b, m),
        DIV => f.rdiv(a, b, m),
        DIV_INT => f.rdiv_int(a, b, m),
        INT_DIV => f.int_rdiv(a, b, m),
        RECIP => f.recip(a, m),
        SQRT => f.rsqrt(a, m),
        HALF => Ok(f.half_sum(a, b, m)),
        INTEGRAL => Ok(f.integral(a, m)),
        ADD => f.cadd(a, b),
        SUB => f.csub(a, b),
        CMUL => f.cmul(a, b),
        CMUL_REV => f.cmul_rev(a, b),
        NEG => f.cneg(a),
        ABS => f.abs(a),
        NPT => f.npt(a),
        RTZ => Ok(f.rtz(a, b)),
        FLOOR => Ok(f.floor(a)),
        CEIL => Ok(f.ceil(a)),
        ROUND => Ok(f.round(a)),
        SADD => Ok(f.sadd(a, b)),
        SSUB => Ok(f.ssub(a, b)),
        SMUL => Ok(f.smul(a, b)),
        SMUL_REV => Ok(f.smul_rev(a, b)),
        SRMUL => Ok(f.srmul(a, b, m)),
        _ => Ok(f.signum(a)),
    }
}
fn run(c: &Case, op: u32, a: i128, b: i128, m: Mode) -> Result<R, String> {
    call(|| {
        if op == PRIM_DIV {
            prim(c.ty).rdiv(a, b, m)
        } else {
            raw(fx(c.ty), op, a, b, m)
        }
    })
}
fn ty_of(c: &Case) -> Ty {
    if c.op == PRIM_DIV {
        Ty {
            bits: prim(c.ty).bits(),
            prec: 0,
        }
    } else {
        fx(c.ty).ty()
    }
}

fn modes(what: &str, lo: R, near: R, hi: R, t: Ty, cx: &mut Cx) -> Res {
    let all = || format!("{}: Floor {}, Nearest {}, Ceil {}", what, show_r(&lo), show_r(&near), show_r(&hi));
    match (lo, hi) {
        (Ok(l), Ok(h)) => {
            if h != l && Some(h) != l.checked_add(1) {
                return Err(format!("{}: not neighbours", all()));
            }
            if near != lo && near != hi {
                return Err(format!("{}: Nearest is neither", all()));
            }
            cx.nontrivial_if(h != l);
        }
        (Ok(l), Err(E::Overflow)) => {
            if l != t.max() || (near != lo && near != hi) {
                return Err(format!("{}: Ceil overflows alone", all()));
            }
            cx.label("at the edge");
        }
        (Err(E::Overflow), Ok(h)) => {
            if h != t.min() || (near != lo && near != hi) {
                return Err(format!("{}: Floor overflows alone", all()));
            }
            cx.label("at the edge");
        }
        (Err(a), Err(b)) => {
            if a != b || near != lo {
                return Err(format!("{}: different errors", all()));
            }
            cx.label("error");
        }
        _ => return Err(format!("{}: an error in one mode only", all())),
    }
    Ok(())
}

fn negated(r: R, t: Ty) -> Option<R> {
    match r {
        Ok(x) if x == t.min() => None,
        Ok(x) => Some(Ok(-x)),
        e => Some(e),
    }
}
fn mirror(m: Mode) -> Mode {
    match m {
        Mode::Floor => Mode::Ceil,
        Mode::Ceil => Mode::Floor,
        m => m,
    }
}

impl Laws {
    fn check_inner(&self, c: &Case, cx: &mut Cx) -> Res {
        let t = ty_of(c);
        let (a, b, d) = (c.v[0], c.v[1], c.v[2]);
        let (op, m) = (c.op, mode_of(c.v[3]));
        cx.label(NAMES[op as usize]);
        if op < MODED {
            let r = [Mode::Floor, Mode::Nearest, Mode::Ceil].map(|m| run(c, op, a, b, m));
            let [lo, near, hi] = r;
            let (lo, near, hi) = (lo?, near?, hi?);
            modes("modes", lo, near, hi, t, cx)?;
        }
        let r = run(c, op, a, b, m)?;

        // mirror images
        if !matches!(op, SQRT | NPT | ABS | FLOOR | CEIL | ROUND)
            && a != t.min()
            && (b != t.min() || !matches!(op, HALF | ADD | SUB))
            && !(op == HALF && m == Mode::Nearest)
        {
            let mm = mirror(m);
            let q = run(c, op, -a, if matches!(op, HALF | ADD | SUB) { -b } else { b }, mm)?;
            if let Some(w) = negated(r, t) {
                // `-MAX` has a neighbour below it
                if q != w && !(w == Err(E::Overflow) && q == Ok(t.min())) {
                    return Err(format!("{:?} gives {}, the mirror image {:?} gives {}", m, show_r(&r), mm, show_r(&q)));
                }
            }
            if matches!(op, MUL | DIV | DIV_INT | CMUL | CMUL_REV | PRIM_DIV) && b != t.min() {
                let q = run(c, op, a, -b, mm)?;
                if let Some(w) = negated(r, t) {
                    if q != w && !(w == Err(E::Overflow) && q == Ok(t.min())) {
                        return Err(format!(
                            "{:?} gives {}, with the second operand negated {:?} gives {}",
                            m,
                            show_r(&r),
                            mm,
                            show_r(&q)
                        ));
                    }
                }
                let both = run(c, op, -a, -b, m)?;
                if both != r {
                    return Err(format!("{:?} gives {}, with both operands negated {}", m, show_r(&r), show_r(&both)));
                }
            }
        }
        // commuted
        if matches!(op, MUL | HALF | ADD) {
            let q = run(c, op, b, a, m)?;
            if q != r {
                return Err(format!("{:?} gives {}, with the operands exchanged {}", m, show_r(&r), show_r(&q)));
            }
        }

        // monotony in the first operand; `d` is not less than `a`
        if d >= a
            && matches!(
                op,
                MUL | DIV | DIV_INT | INT_DIV | PRIM_DIV | SQRT | HALF | INTEGRAL | ADD | SUB | CMUL | CMUL_REV
            )
        {
            let q = run(c, op, d, b, m)?;
            let down = matches!(op, MUL | DIV | DIV_INT | INT_DIV | PRIM_DIV | CMUL | CMUL_REV) && b < 0;
            let (low, high) = if down { (q, r) } else { (r, q) };
            if let (Ok(l), Ok(h)) = (low, high) {
                cx.label("monotone pair");
                if l > h {
                    return Err(format!("not monotone: {} for {}, {} for {}", show_r(&r), a, show_r(&q), d));
                }
                // between two results there is a result
                let mid = (a >> 1) + (d >> 1) + (a & d & 1);
                let z = run(c, op, mid, b, m)?;
                match z {
                    Ok(z) if l <= z && z <= h => {}
                    _ => {
                        return Err(format!(
                            "not monotone: {} for {}, {} for {}, {} for {}",
                            show_r(&r),
                            a,
                            show_r(&z),
                            mid,
                            show_r(&q),
                            d
                        ))
                    }
                }
            }
        }
        // inverses
        match (op, r) {
            (ADD, Ok(s)) => {
                cx.nontrivial_if(a != 0 && b != 0);
                for (x, y) in [(a, b), (b, a)] {
                    let back = run(c, SUB, s, x, m)?;
                    if back != Ok(y) {
                        return Err(format!("sum {}, less {} is {}", s, x, show_r(&back)));
                    }
                }
            }
            (SUB, Ok(s)) => {
                cx.nontrivial_if(a != 0 && b != 0);
                let back = run(c, ADD, s, b, m)?;
                if back != Ok(a) {
                    return Err(format!("difference {}, plus {} is {}", s, b, show_r(&back)));
                }
            }
            (CMUL | CMUL_REV, Ok(p)) => {
                // the integer factor
                let (num, k) = if op == CMUL { (a, b) } else { (b, a) };
                cx.nontrivial_if(k.unsigned_abs() > 1 && num != 0);
                if k != 0 {
                    let back = run(c, DIV_INT, p, k, m)?;
                    if back != Ok(num) {
                        return Err(format!("product {}, divided by {} is {}", p, k, show_r(&back)));
                    }
                }
                let other = run(c, if op == CMUL { CMUL_REV } else { CMUL }, b, a, m)?;
                if other != r {
                    return Err(format!("{} in one order, {} in the other", show_r(&r), show_r(&other)));
                }
            }
            (DIV, Ok(q)) if a >= 0 && b > 0 => {
                // floor(a / b) * b <= a <= ceil(a / b) * b
                match m {
                    Mode::Floor => {
                        let p = run(c, MUL, q, b, Mode::Ceil)?;
                        if !matches!(p, Ok(p) if p <= a) {
                            return Err(format!("the quotient rounded down is {}, times the divisor {}", q, show_r(&p)));
                        }
                    }
                    Mode::Ceil => {
                        let p = run(c, MUL, q, b, Mode::Floor)?;
                        if !matches!(p, Ok(p) if p >= a) && p != Err(E::Overflow) {
                            return Err(format!("the quotient rounded up is {}, times the divisor {}", q, show_r(&p)));
                        }
                    }
                    Mode::Nearest => {}
                }
            }
            (MUL, Ok(p)) if b != 0 && a != 0 => {
                // the quotient of an exact product is exact
                let other = run(c, MUL, a, b, if m == Mode::Floor { Mode::Ceil } else { Mode::Floor })?;
                if other == r && m != Mode::Nearest {
                    cx.label("exact product");
                    let q = run(c, DIV, p, b, m)?;
                    if q != Ok(a) {
                        return Err(format!("the product {} is exact, divided by {} it gives {}", p, b, show_r(&q)));
                    }
                }
            }
            (SQRT, Ok(s)) => match m {
                Mode::Floor => {
                    let p = run(c, MUL, s, s, Mode::Ceil)?;
                    if !matches!(p, Ok(p) if p <= a) {
                        return Err(format!("the root rounded down is {}, its square {}", s, show_r(&p)));
                    }
                }
                Mode::Ceil => {
                    let p = run(c, MUL, s, s, Mode::Floor)?;
                    if !matches!(p, Ok(p) if p >= a) && p != Err(E::Overflow) {
                        return Err(format!("the root rounded up is {}, its square {}", s, show_r(&p)));
                    }
                }
                Mode::Nearest => {}
            },
            (INTEGRAL, Ok(n)) => {
                // the same through from_int, which has no rounding
                let one = t.coef();
                if let Ok(back) = run(c, CMUL, one, n, m)? {
                    let which = match m {
                        Mode::Floor => FLOOR,
                        Mode::Ceil => CEIL,
                        Mode::Nearest => ROUND,
                    };
                    let w = run(c, which, a, 0, m)?;
                    if w != Ok(back) {
                        return Err(format!("integral is {}, {} is {}", n, NAMES[which as usize], show_r(&w)));
                    }
                    let again = run(c, INTEGRAL, back, 0, mirror(m))?;
                    if again != Ok(n) {
                        return Err(format!("integral is {}, that of this integer {}", n, show_r(&again)));
                    }
                }
            }
            (RECIP, _) => {
                let q = run(c, DIV, t.coef(), a, m)?;
                let k = run(c, INT_DIV, 1, a, m)?;
                if q != r || k != r {
                    return Err(format!("recip gives {}, ONE divided {}, 1 divided {}", show_r(&r), show_r(&q), show_r(&k)));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

const LAW_OPS: [u32; 13] = [MUL, DIV, DIV_INT, INT_DIV, RECIP, SQRT, HALF, INTEGRAL, PRIM_DIV, ADD, SUB, CMUL, CMUL_REV];

/// A second operand that gives the operation something to do.
fn operands(g: &mut Gen, t: Ty, op: u32) -> (i128, i128) {
    let mut a = t.val(g);
    let mut b = t.val(g);
    match g.below(5) {
        4 if matches!(op, MUL | DIV) => {
            // a factor near one, a result near a bound
            let (one, edge) = (t.coef(), t.edge(g));
            let k = g.signed(12);
            b = t.clamp(one + k.clamp(1 - one, one));
            let k = b - one;
            let part = (edge / one).saturating_mul(k).saturating_add((edge % one).saturating_mul(k) / one);
            a = t.clamp(if op == MUL { edge.saturating_sub(part) } else { edge.saturating_add(part) });
        }
        0 => {
            // results near the bounds
            let edge = t.edge(g);
            match op {
                MUL | CMUL | CMUL_REV => {
                    let one = if op == MUL { t.coef() } else { 1 };
                    let s = 1 + g.mag(t.bits / 2) as i128;
                    b = t.clamp(s);
                    a = t.clamp((edge / b).saturating_mul(one));
                }
                DIV | INT_DIV => {
                    b = 1 + g.mag(t.bits / 2) as i128;
                    a = t.clamp((edge / t.coef()).saturating_mul(b) / if op == INT_DIV { t.coef() } else { 1 });
                    b = t.clamp(b);
                }
                ADD | SUB | HALF => b = t.clamp(edge.saturating_sub(a)),
                _ => {}
            }
        }
        1 => b = t.clamp(g.signed(8)),
        2 => {
            // a square, or equal
            b = a;
        }
        _ => {}
    }
    let (a, b) = if op == CMUL_REV { (b, a) } else { (a, b) };
    let near = g.range(-2, 2) as i128;
    (t.clamp(a.saturating_add(near)), b)
}

impl Prop for Laws {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let op = LAW_OPS[(i / nfx()) as usize % LAW_OPS.len()];
        let (mut ty, mut t) = pick_ty(g, i);
        if op == PRIM_DIV {
            ty = g.below(5) as u32;
            t = Ty {
                bits: prim(ty).bits(),
                prec: 0,
            };
        }
        let (a, b) = operands(g, t, op);
        let d = match g.below(3) {
            0 => t.clamp(a.saturating_add(g.mag(4) as i128)),
            1 => t.clamp(a.saturating_add(g.mag(t.bits - 1) as i128)),
            _ => t.val(g),
        };
        Case::new(ty, op, &[a, b, d.max(a), g.below(3) as i128])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        if !LAW_OPS.contains(&c.op) {
            return cx.skip();
        }
        let t = ty_of(c);
        if c.v[..3].iter().any(|x| !t.has(*x)) {
            return cx.skip();
        }
        self.check_inner(c, cx)
    }
    fn show(&self, c: &Case) -> String {
        let ty = if c.op == PRIM_DIV { format!("i{}", prim(c.ty).bits()) } else { show_ty(c.ty) };
        format!(
            "{} {} of raw {} and {} in {:?} (and of {})",
            ty,
            NAMES[c.op as usize],
            c.v[0],
            c.v[1],
            mode_of(c.v[3]),
            c.v[2]
        )
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            300_000_000
        } else {
            8_000_000
        }
    }
    fn rule(&self) -> String {
        "triples of operands (shaped values, results near the bounds, squares, small integers; a neighbour or a greater first operand) for 13 operations of all types in every mode; \
         non-trivial = the modes differ, or a sum/product of non-zero numbers succeeds"
            .into()
    }
}

/// Scales a raw value of `from` to `to`, if the number is representable there.
fn moved(x: i128, from: Ty, to: Ty) -> Option<i128> {
    let r = if to.prec >= from.prec {
        x.checked_mul(pow10(to.prec - from.prec))?
    } else {
        let d = pow10(from.prec - to.prec);
        if x % d != 0 {
            return None;
        }
        x / d
    };
    Some(r).filter(|r| to.has(*r))
}

const SAME_PREC: [u32; 27] = [
    MUL, DIV, DIV_INT, INT_DIV, RECIP, SQRT, HALF, INTEGRAL, ADD, SUB, CMUL, CMUL_REV, NEG, ABS, NPT, RTZ, FLOOR, SADD, SSUB, SMUL, SMUL_REV, SRMUL, SIGNUM,
    ORDER, TEXT, DECIMAL, INT,
];
const ANY_PREC: [u32; 18] = [
    INTEGRAL, ADD, SUB, CMUL, CMUL_REV, NEG, ABS, NPT, RTZ, FLOOR, MUL, DIV, DIV_INT, SIGNUM, ORDER, TEXT, DECIMAL, INT,
];

impl Types {
    /// `x` of the first type and `y` of the second are the same result. A result of one type that the other cannot hold is an overflow there.
    fn agree(&self, p: Ty, q: Ty, x: R, y: R) -> Res {
        let ok = match (x, y) {
            (Ok(x), Ok(y)) => moved(x, p, q) == Some(y),
            (Ok(x), Err(e)) => e == E::Overflow && moved(x, p, q).is_none(),
            (Err(e), Ok(y)) => e == E::Overflow && moved(y, q, p).is_none(),
            (Err(e), Err(f)) => e == f,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{} in one type, {} in the other", show_r(&x), show_r(&y)))
        }
    }
}

impl Prop for Types {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let (mut ty, t) = pick_ty(g, i);
        // some precisions are in one layout only
        let same = (0..nfx() as u32).any(|k| k != ty && fx(k).ty().prec == t.prec) && g.chance(1, 2);
        let other = loop {
            let k = g.below(nfx()) as u32;
            let u = fx(k).ty();
            if k != ty && (u.prec == t.prec) == same {
                break k;
            }
        };
        let u = fx(other).ty();
        let op = if u.prec == t.prec { *g.pick(&SAME_PREC) } else { *g.pick(&ANY_PREC) };
        // values of the narrower type, which both often have
        let (n, w, narrow, wide) = if u.max() / u.coef() < t.max() / t.coef() {
            (u, t, other, ty)
        } else {
            (t, u, ty, other)
        };
        let int = matches!(op, CMUL | DIV_INT | SMUL) as usize;
        let first = matches!(op, CMUL_REV | INT_DIV | SMUL_REV) as usize;
        ty = narrow;
        let small = Ty {
            bits: n.bits.min(w.bits),
            prec: 0,
        };
        let (mut a, mut b) = operands(g, n, op);
        if w.prec < n.prec && g.chance(15, 16) {
            let d = pow10(n.prec - w.prec);
            (a, b) = (a / d * d, b / d * d);
        }
        if int == 1 {
            b = small.clamp(if g.bool() { small.val(g) } else { b });
        }
        if first == 1 {
            a = small.clamp(if g.bool() { small.val(g) } else { a });
        }
        let mut c = Case::new(ty, op, &[a, b, g.below(3) as i128, wide as i128, g.range(-(n.prec as i64), 12) as i128]);
        if op == TEXT {
            let s = if g.chance(1, 3) {
                text::canonical(a, n.prec)
            } else {
                text::decimal(g, n, g.clone().bool())
            };
            c.s.push(s.into_bytes());
        }
        c
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        let (f, h) = (fx(c.ty), fx(c.v[3].rem_euclid(nfx() as i128) as u32));
        let (p, q) = (f.ty(), h.ty());
        let same = p.prec == q.prec;
        if !(if same { SAME_PREC.contains(&c.op) } else { ANY_PREC.contains(&c.op) }) {
            return cx.skip();
        }
        let (a, b, m) = (c.v[0], c.v[1], mode_of(c.v[2]));
        let small = Ty {
            bits: p.bits.min(q.bits),
            prec: 0,
        };
        // operands that are integers are not scaled
        let ints = match c.op {
            CMUL | DIV_INT | SMUL => [false, true],
            CMUL_REV | INT_DIV | SMUL_REV => [true, false],
            INT => [true, true],
            _ => [false, false],
        };
        let both = |x: i128, int: bool| {
            if int {
                Some(x).filter(|x| small.has(*x))
            } else {
                Some(x).filter(|x| p.has(*x)).and_then(|x| moved(x, p, q))
            }
        };
        let unary = matches!(c.op, RECIP | SQRT | INTEGRAL | NEG | ABS | NPT | FLOOR | SIGNUM | TEXT | DECIMAL | INT);
        let (a2, b2) = match (both(a, ints[0]), both(b, ints[1])) {
            (Some(x), Some(y)) => (x, y),
            (Some(x), None) if unary => (x, 0),
            _ => return cx.skip(),
        };
        cx.label(NAMES[c.op as usize]);
        cx.label(if same { "two layouts" } else { "two precisions" });
        cx.nontrivial_if(a != 0);
        match c.op {
            ORDER => {
                let (x, y) = (call(|| f.order(a, b))?, call(|| h.order(a2, b2))?);
                if (x.cmp, x.partial, x.eq, x.lt, x.le) != (y.cmp, y.partial, y.eq, y.lt, y.le) {
                    return Err(format!("compared as {:?} in one type, as {:?} in the other", x.cmp, y.cmp));
                }
                Ok(())
            }
            SIGNUM => {
                let (x, y) = (call(|| f.signum(a))?, call(|| h.signum(a2))?);
                if x != y {
                    return Err(format!("signum {} and {}", x, y));
                }
                Ok(())
            }
            TEXT => {
                let (x, y) = (call(|| f.display(a))?, call(|| h.display(a2))?);
                if x != y {
                    return Err(format!("shown as {} in one type, as {} in the other", x, y));
                }
                let s = match c.s.first().and_then(|s| std::str::from_utf8(s).ok()) {
                    Some(s) => s,
                    None => return Ok(()),
                };
                for exact in [true, false] {
                    let parse = |f: &dyn Fx, s: &str| call(|| if exact { f.parse_exact(s) } else { f.parse(s) });
                    let (x, y) = (parse(f, s)?, parse(h, s)?);
                    let ok = match (x, y) {
                        (Some(x), Some(y)) if same || exact => moved(x, p, q) == Some(y),
                        (Some(x), None) if same || exact => moved(x, p, q).is_none(),
                        (None, Some(y)) if same || exact => moved(y, q, p).is_none(),
                        _ => true,
                    };
                    if !ok {
                        return Err(format!("{:?} is read (exactly: {}) as {:?} in one type, as {:?} in the other", s, exact, x, y));
                    }
                }
                Ok(())
            }
            DECIMAL => {
                let max = c.v[4].clamp(-1000, 1000) as i32;
                if max < -(p.prec.min(q.prec) as i32) {
                    return cx.skip();
                }
                let (x, y) = (call(|| f.to_decimal(a, max))?, call(|| h.to_decimal(a2, max))?);
                if x != y {
                    return Err(format!("to_decimal({}) is {:?} in one type, {:?} in the other", max, x, y));
                }
                let e = max.min(10);
                let k = a;
                if !small.has(k) {
                    return Ok(());
                }
                let (x, y) = (call(|| f.from_decimal(k, e))?, call(|| h.from_decimal(k, e))?);
                let ok = match (x, y) {
                    (Some(x), Some(y)) => moved(x, p, q) == Some(y),
                    (Some(x), None) => moved(x, p, q).is_none(),
                    (None, Some(y)) => moved(y, q, p).is_none(),
                    (None, None) => true,
                };
                if !ok {
                    return Err(format!("from_decimal({}, {}) is {:?} in one type, {:?} in the other", k, e, x, y));
                }
                Ok(())
            }
            INT => {
                for k in [0, 2, 4, 6, 8, 10, 1, 3, 5, 7, 9, 11] {
                    let (x, y) = (call(|| f.try_from_int(k, a as u128))?, call(|| h.try_from_int(k, a as u128))?);
                    let ok = match (x, y) {
                        (Some(x), Some(y)) => moved(x, p, q) == Some(y),
                        (Some(x), None) => moved(x, p, q).is_none(),
                        (None, Some(y)) => moved(y, q, p).is_none(),
                        (None, None) => true,
                    };
                    if !ok {
                        return Err(format!("{} as {} is {:?} in one type, {:?} in the other", a, crate::types::INT_NAMES[k], x, y));
                    }
                }
                Ok(())
            }
            INTEGRAL => {
                let (x, y) = (call(|| f.integral(a, m))?, call(|| h.integral(a2, m))?);
                if x != y {
                    return Err(format!("integral {} in one type, {} in the other", x, y));
                }
                Ok(())
            }
            FLOOR => {
                let n = call(|| f.integral(a, m))?;
                let as_int = Ty { bits: 128, prec: 0 };
                if moved(n, as_int, p).is_none() || moved(n, as_int, q).is_none() {
                    return cx.skip();
                }
                let op = [FLOOR, ROUND, CEIL][m as usize];
                self.agree(p, q, call(|| raw(f, op, a, b, m))?, call(|| raw(h, op, a2, b2, m))?)
            }
            HALF if m == Mode::Nearest => cx.skip(),
            // the dividend itself overflows
            INT_DIV if [p, q].iter().any(|t| a.checked_mul(t.coef()).is_none_or(|x| !t.has(x))) => cx.skip(),
            NPT if !same && a == 0 => cx.skip(),
            SADD | SSUB | SMUL | SMUL_REV | SRMUL => {
                let (x, y) = (call(|| raw(f, c.op, a, b, m))?, call(|| raw(h, c.op, a2, b2, m))?);
                let (x, y) = (x.unwrap_or(0), y.unwrap_or(0));
                // one clamps what the other still holds
                if small.clamp(x) != small.clamp(y) {
                    return Err(format!("raw {} in one type, raw {} in the other", x, y));
                }
                Ok(())
            }
            MUL | DIV | DIV_INT if !same => {
                // the same number when it needs no rounding in the coarser type
                let (coarse, x1, x2, fine, y1, y2) = if p.prec < q.prec { (f, a, b, h, a2, b2) } else { (h, a2, b2, f, a, b) };
                let lo = call(|| raw(coarse, c.op, x1, x2, Mode::Floor))?;
                let hi = call(|| raw(coarse, c.op, x1, x2, Mode::Ceil))?;
                let y = call(|| raw(fine, c.op, y1, y2, m))?;
                if lo == hi {
                    cx.label("exact in the coarser type");
                    return self.agree(coarse.ty(), fine.ty(), lo, y);
                }
                // otherwise between the two
                if let (Ok(l), Ok(h), Ok(y)) = (lo, hi, y) {
                    let d = pow10(fine.ty().prec - coarse.ty().prec);
                    let (l, h) = (l.checked_mul(d), h.checked_mul(d));
                    if l.is_some_and(|l| y < l) || h.is_some_and(|h| y > h) {
                        return Err(format!("{} to {} in the coarser type, raw {} in the finer", show_r(&lo), show_r(&hi), y));
                    }
                }
                Ok(())
            }
            op => self.agree(p, q, call(|| raw(f, op, a, b, m))?, call(|| raw(h, op, a2, b2, m))?),
        }
    }
    fn show(&self, c: &Case) -> String {
        let mut o = format!(
            "{} of {} raw {} and {} in {:?}, and of the same numbers as {}",
            NAMES[c.op.min(29) as usize],
            show_ty(c.ty),
            c.v[0],
            c.v[1],
            mode_of(c.v[2]),
            show_ty(c.v[3].rem_euclid(nfx() as i128) as u32)
        );
        if c.op == TEXT {
            o.push_str(&format!(", of {:?}", c.s.iter().map(|s| String::from_utf8_lossy(s)).collect::<Vec<_>>()));
        }
        if c.op == DECIMAL {
            o.push_str(&format!(", exponent {}", c.v[4]));
        }
        o
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        c.shrinks().into_iter().filter(|k| k.v[3] == c.v[3]).collect()
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            400_000_000
        } else {
            12_000_000
        }
    }
    fn rule(&self) -> String {
        "operands that are the same numbers in two types (two layouts of one precision, or two precisions), 27 operations in every mode, texts, exponents; non-trivial = the first operand is not zero".into()
    }
}
