//! Every call of a type behind one interface, with a generator. Included by several crates.
use crate::types::{self, Fx, Prim, E, R};
use fxcore::case::Case;
use fxcore::gen::{float, Gen, Ty};
use fxcore::text::{decimal, mutate};
use fxcore::wide::{Mode, MODES};

pub enum Sub {
    Fixed(Box<dyn Fx>),
    Int(Box<dyn Prim>),
}
impl Sub {
    pub fn name(&self) -> String {
        match self {
            Sub::Fixed(f) => f.name(),
            Sub::Int(p) => format!("int{}", p.bits()),
        }
    }
}
pub fn subjects() -> Vec<Sub> {
    types::table()
        .into_iter()
        .map(Sub::Fixed)
        .chain(types::prims().into_iter().map(Sub::Int))
        .collect()
}

pub const OPS: [&str; 41] = [
    "cadd",
    "csub",
    "cneg",
    "abs",
    "signum",
    "cmul",
    "cmul_rev",
    "sadd",
    "ssub",
    "smul",
    "smul_rev",
    "srmul",
    "rmul",
    "rmul",
    "rdiv",
    "rdiv",
    "rdiv_int",
    "int_rdiv",
    "recip",
    "rsqrt",
    "rsqrt",
    "half_sum",
    "integral",
    "floor",
    "ceil",
    "round",
    "rtz",
    "npt",
    "from_decimal",
    "to_decimal",
    "try_from_int",
    "display",
    "debug",
    "parse",
    "parse",
    "parse_exact",
    "from_f64",
    "from_f64",
    "to_f64",
    "order",
    "consts",
];
pub const PRIM: [&str; 8] = ["cadd", "csub", "cmul", "sadd", "ssub", "smul", "rdiv", "consts"];

pub fn gen(s: &Sub, g: &mut Gen) -> Case {
    let t = match s {
        Sub::Fixed(f) => f.ty(),
        Sub::Int(p) => Ty { bits: p.bits(), prec: 0 },
    };
    let n = if let Sub::Fixed(_) = s { OPS.len() } else { PRIM.len() };
    let op = g.below(n as u64) as u32;
    let m = g.below(3) as i128;
    let (a, b) = (t.val(g), t.val(g));
    if let Sub::Int(_) = s {
        return Case::new(0, op, &[a, b, m]);
    }
    match OPS[op as usize] {
        "parse" | "parse_exact" => {
            let mut s = decimal(g, t, OPS[op as usize] == "parse_exact");
            if g.chance(1, 4) {
                s = mutate(g, s);
            }
            Case::text(0, op, s.into_bytes())
        }
        "from_f64" => Case::new(0, op, &[float(g, t).to_bits() as i128]),
        "from_decimal" => {
            let e = g.range(-(t.prec as i64) - 1, 11);
            Case::new(0, op, &[a, e as i128])
        }
        "to_decimal" => {
            let e = g.range(-(t.prec as i64) - 1, 20);
            Case::new(0, op, &[a, e as i128])
        }
        "try_from_int" => {
            let x = if g.bool() {
                ((if g.bool() { t.max() } else { t.min() }) / t.coef()).saturating_add(g.range(-2, 2) as i128)
            } else {
                g.signed(127)
            };
            Case::new(0, op, &[g.below(12) as i128, x])
        }
        _ => {
            // a product, quotient or sum near the edge of the type
            let b = match g.below(6) {
                0 if a != 0 => t.clamp(t.max().wrapping_div(a).saturating_add(g.range(-1, 1) as i128)),
                1 => t.clamp(t.max().wrapping_sub(a.saturating_abs()).saturating_add(g.range(-1, 1) as i128)),
                _ => b,
            };
            Case::new(0, op, &[a, b, m])
        }
    }
}

pub fn domain(s: &Sub, c: &Case) -> bool {
    let t = match s {
        Sub::Fixed(f) => f.ty(),
        Sub::Int(p) => Ty { bits: p.bits(), prec: 0 },
    };
    let op = if let Sub::Fixed(_) = s { OPS[c.op as usize] } else { PRIM[c.op as usize] };
    match op {
        "from_f64" | "parse" | "parse_exact" | "try_from_int" => true,
        "from_decimal" | "to_decimal" => t.has(c.v[0]) && i32::try_from(c.v[1]).is_ok(),
        _ => t.has(c.v[0]) && t.has(c.v[1]),
    }
}

/// The calls behind which there is unsafe code.
const UNSAFE: [&str; 10] = [
    "display",
    "debug",
    "parse",
    "parse_exact",
    "rmul",
    "rdiv",
    "rsqrt",
    "srmul",
    "from_decimal",
    "to_f64",
];

/// A case for the interpreter: mostly calls behind which there is unsafe code.
pub fn emit(subs: &[Sub], g: &mut Gen) -> Case {
    let all = g.chance(1, 4);
    loop {
        let k = g.below(subs.len() as u64) as usize;
        let mut c = gen(&subs[k], g);
        let fixed = matches!(subs[k], Sub::Fixed(_));
        if domain(&subs[k], &c) && (all || fixed && UNSAFE.contains(&OPS[c.op as usize])) {
            c.ty = k as u32;
            return c;
        }
    }
}

fn r(x: R) -> Vec<i128> {
    match x {
        Ok(x) => vec![0, x],
        Err(e) => vec![match e {
            E::Overflow => 1,
            E::DivisionByZero => 2,
            E::DomainViolation => 3,
            E::Other => 4,
        }],
    }
}
fn o(x: Option<i128>) -> Vec<i128> {
    x.map(|x| vec![0, x]).unwrap_or(vec![1])
}
fn text(s: String) -> Vec<i128> {
    s.bytes().map(|b| b as i128).collect()
}

pub fn call(s: &Sub, c: &Case) -> Vec<i128> {
    let v = |i: usize| c.v.get(i).copied().unwrap_or(0);
    let m: Mode = MODES[v(2).rem_euclid(3) as usize];
    let (a, b) = (v(0), v(1));
    let f = match s {
        Sub::Int(p) => {
            return match PRIM[c.op as usize] {
                "cadd" => r(p.cadd(a, b)),
                "csub" => r(p.csub(a, b)),
                "cmul" => r(p.cmul(a, b)),
                "sadd" => vec![p.sadd(a, b)],
                "ssub" => vec![p.ssub(a, b)],
                "smul" => vec![p.smul(a, b)],
                "rdiv" => r(p.rdiv(a, b, m)),
                _ => p.consts().to_vec(),
            }
        }
        Sub::Fixed(f) => f,
    };
    let s = || String::from_utf8_lossy(&c.s[0]).into_owned();
    match OPS[c.op as usize] {
        "cadd" => r(f.cadd(a, b)),
        "csub" => r(f.csub(a, b)),
        "cneg" => r(f.cneg(a)),
        "abs" => r(f.abs(a)),
        "signum" => vec![f.signum(a)],
        "cmul" => r(f.cmul(a, b)),
        "cmul_rev" => r(f.cmul_rev(a, b)),
        "sadd" => vec![f.sadd(a, b)],
        "ssub" => vec![f.ssub(a, b)],
        "smul" => vec![f.smul(a, b)],
        "smul_rev" => vec![f.smul_rev(a, b)],
        "srmul" => vec![f.srmul(a, b, m)],
        "rmul" => r(f.rmul(a, b, m)),
        "rdiv" => r(f.rdiv(a, b, m)),
        "rdiv_int" => r(f.rdiv_int(a, b, m)),
        "int_rdiv" => r(f.int_rdiv(a, b, m)),
        "recip" => r(f.recip(a, m)),
        "rsqrt" => r(f.rsqrt(a, m)),
        "half_sum" => vec![f.half_sum(a, b, m)],
        "integral" => vec![f.integral(a, m)],
        "floor" => vec![f.floor(a)],
        "ceil" => vec![f.ceil(a)],
        "round" => vec![f.round(a)],
        "rtz" => vec![f.rtz(a, b)],
        "npt" => r(f.npt(a)),
        "from_decimal" => o(f.from_decimal(a, b as i32)),
        "to_decimal" => {
            let (m, e) = f.to_decimal(a, b as i32);
            vec![m, e as i128]
        }
        "try_from_int" => o(f.try_from_int(a.rem_euclid(12) as usize, b as u128)),
        "display" => text(f.display(a)),
        "debug" => text(f.debug(a)),
        "parse" => o(f.parse(&s())),
        "parse_exact" => o(f.parse_exact(&s())),
        "from_f64" => o(f.from_f64(f64::from_bits(a as u64))),
        "to_f64" => vec![f.to_f64(a).to_bits() as i128],
        "order" => {
            let q = f.order(a, b);
            vec![
                q.cmp as i128,
                q.partial.map(|x| x as i128).unwrap_or(9),
                q.eq as i128,
                q.lt as i128,
                q.le as i128,
                q.max,
                q.min,
                q.hash_a as i128,
                q.hash_b as i128,
            ]
        }
        _ => {
            let q = f.consts();
            vec![q.zero, q.one, q.min, q.max, q.eps, q.default, q.prec as i128, q.size as i128]
        }
    }
}

pub fn result(s: &Sub, c: &Case) -> Vec<i128> {
    fxcore::engine::call(|| call(s, c)).unwrap_or(vec![-77, -77, -77])
}

pub fn show(s: &Sub, c: &Case) -> String {
    let op = if let Sub::Fixed(_) = s { OPS[c.op as usize] } else { PRIM[c.op as usize] };
    match op {
        "from_f64" => format!("{} from_f64({:e})", s.name(), f64::from_bits(c.v[0] as u64)),
        "parse" | "parse_exact" => format!("{} {}({:?})", s.name(), op, String::from_utf8_lossy(&c.s[0])),
        _ => format!("{} {} on raw {:?}", s.name(), op, c.v),
    }
}
