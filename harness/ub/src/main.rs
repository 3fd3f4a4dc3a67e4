//! C23: every check's calls, looking only at how they end: normally, by a documented panic, or otherwise.
//!
//!     ub C23 --seed N ...        the engine, in a native build with every debug check
//!     ub emit SEED COUNT         direct calls, for:
//!     ub pack                    lines to the form that this reads:
//!     ub stream                  runs the calls given on stdin one after another, a dot before each (under Miri)
//!     ub C23 --replay LINE       one case
#[allow(dead_code)]
#[path = "../../cfg/src/ops.rs"]
mod ops;
use fx::types;

use fxcore::case::Case;
use fxcore::engine::{self, Cx, Prop};
use fxcore::gen::{Gen, Ty};
use ops::{Sub, OPS};
use std::io::{Read, Write};

const FX: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C24", "C25",
];
const CODEC: [&str; 3] = ["C17", "C19", "C26"];
/// `op` is `part * UNIT + op of the part`; part 0 are single calls.
const UNIT: u32 = 1_000_000;

struct Ub {
    subs: Vec<Sub>,
    parts: Vec<Box<dyn Prop>>,
    /// The part of direct codec calls.
    calls: u32,
}

/// The panics the documentation promises.
fn allowed(s: &Sub, c: &Case) -> bool {
    let Sub::Fixed(f) = s else { return false };
    let t: Ty = f.ty();
    match OPS[c.op as usize] {
        "to_decimal" => c.v[1] < -(t.prec as i128),
        "floor" | "ceil" | "round" => {
            let (k, x) = (t.coef(), c.v[0]);
            let (q, r) = (x.div_euclid(k), x.rem_euclid(k));
            let i = match OPS[c.op as usize] {
                "floor" => q,
                "ceil" => q + (r != 0) as i128,
                _ if r > k - r || (r == k - r && x > 0) => q + 1,
                _ => q,
            };
            !i.checked_mul(k).map(|x| t.has(x)).unwrap_or(false)
        }
        _ => false,
    }
}

impl Ub {
    fn new() -> Ub {
        Ub {
            subs: ops::subjects(),
            parts: FX
                .iter()
                .filter_map(|p| fx::find(p))
                .chain(CODEC.iter().filter_map(|p| codec::find(p)))
                .collect(),
            calls: (1 + FX.len() + CODEC.len()) as u32,
        }
    }
    fn part(&self, g: &mut Gen, i: u64, part: u32) -> Case {
        let mut c = if part == 0 {
            let k = g.below(self.subs.len() as u64) as usize;
            let mut c = ops::gen(&self.subs[k], g);
            c.ty = k as u32;
            c
        } else if part == self.calls {
            codec::calls::gen(g)
        } else {
            self.parts[part as usize - 1].gen(g, i)
        };
        c.op += part * UNIT;
        c
    }
    fn split(&self, c: &Case) -> (u32, Case) {
        let mut d = c.clone();
        d.op %= UNIT;
        (c.op / UNIT, d)
    }
}
impl Ub {
    /// Runs the calls of a case and nothing else.
    fn only(&self, c: &Case) {
        let (part, d) = self.split(c);
        if part == 0 {
            let _ = engine::call(|| ops::call(&self.subs[d.ty as usize], &d));
        } else {
            let _ = engine::call(|| codec::calls::run(&d));
        }
    }
}
impl Prop for Ub {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let n = FX.len() as u64;
        let part = match g.below(8) {
            0..=2 => 0,
            3..=6 => 1 + g.below(n),
            _ => 1 + n + g.below(CODEC.len() as u64 + 1),
        };
        self.part(g, i, part as u32)
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Result<(), String> {
        let (part, d) = self.split(c);
        if part == 0 {
            let s = &self.subs[d.ty as usize];
            if !ops::domain(s, &d) {
                return cx.skip();
            }
            cx.label("single calls");
            cx.nontrivial();
            return match engine::call(|| ops::call(s, &d)) {
                Ok(_) => Ok(()),
                Err(_) if allowed(s, &d) => {
                    cx.label("documented panics");
                    Ok(())
                }
                Err(m) => Err(m),
            };
        }
        if part == self.calls {
            cx.label("direct codec calls");
            cx.nontrivial();
            return engine::call(|| codec::calls::run(&d)).map(|_| ());
        }
        cx.label(if part <= FX.len() as u32 { "sequences of calls" } else { "codec calls" });
        let mut inner = Cx::default();
        cx.nontrivial();
        // what the calls return is judged elsewhere
        match self.parts[part as usize - 1].check(&d, &mut inner) {
            Err(m) if m.contains("panicked: ") => Err(m),
            _ => Ok(()),
        }
    }
    fn show(&self, c: &Case) -> String {
        let (part, d) = self.split(c);
        if part == 0 {
            ops::show(&self.subs[d.ty as usize], &d)
        } else if part == self.calls {
            codec::calls::show(&d)
        } else {
            self.parts[part as usize - 1].show(&d)
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            200_000_000
        } else {
            8_000_000
        }
    }
    fn rule(&self) -> String {
        "all calls of every other check, plus single calls with values from the whole type; every case is non-trivial: it reaches the library".into()
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("emit") => {
            let u = Ub::new();
            let mut g = Gen::new(a[2].parse().expect("seed"));
            for i in 0..a[3].parse().expect("count") {
                if i % 8 == 7 {
                    println!("{}", u.part(&mut g, i, u.calls).line());
                } else {
                    println!("{}", ops::emit(&u.subs, &mut g).line());
                }
            }
        }
        Some("pack") => {
            for l in std::io::stdin().lines() {
                let c = Case::parse(&l.expect("stdin")).expect("case");
                std::io::stdout().write_all(&c.pack()).expect("stdout");
            }
        }
        Some("stream") => {
            engine::init();
            let u = Ub::new();
            let mut b = vec![];
            std::io::stdin().read_to_end(&mut b).expect("stdin");
            let mut b = &b[..];
            while !b.is_empty() {
                let c = Case::unpack(&mut b);
                std::io::stdout().write_all(b".\n").expect("stdout");
                u.only(&c);
            }
            std::io::stdout().write_all(b"DONE\n").expect("stdout");
        }
        Some("shrinks") => {
            let u = Ub::new();
            for c in Case::parse(&a[2]).expect("case").shrinks() {
                if c.op >= UNIT || ops::domain(&u.subs[c.ty as usize], &c) {
                    println!("{}", c.line());
                }
            }
        }
        Some("show") => println!("{}", Ub::new().show(&Case::parse(&a[2]).expect("case"))),
        _ => std::process::exit(engine::main(|id| (id == "C23").then(|| Box::new(Ub::new()) as Box<dyn Prop>))),
    }
}
