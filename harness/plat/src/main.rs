//! C31: the same generated calls on every platform this is built for (or interpreted as).
//!
//!     plat digest SEED CHUNKS CASES   "chunk digest nontrivial" per chunk
//!     plat dump SEED CHUNK CASES      every case with its result
//!     plat emit SEED COUNT            cases, for:
//!     plat pack                       lines to the form that this reads:
//!     plat stream                     the results of the calls given on stdin
//!     plat shrinks|show LINE
#[allow(dead_code)]
#[path = "../../cfg/src/ops.rs"]
mod ops;
use fx::types;

use fxcore::case::Case;
use fxcore::engine::{self, call};
use fxcore::gen::Gen;
use ops::{Sub, OPS};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// `op` is below it for arithmetic and the like, above for the codecs.
const CODEC: u32 = 1_000_000;

fn fixed_op(s: &Sub, c: &Case) -> &'static str {
    match s {
        Sub::Fixed(_) => OPS[c.op as usize],
        Sub::Int(_) => "",
    }
}

fn domain(subs: &[Sub], c: &Case) -> bool {
    if c.op >= CODEC {
        return true;
    }
    let s = &subs[c.ty as usize];
    // isize and usize have different ranges
    let same = fixed_op(s, c) != "try_from_int"
        || match types::INT_NAMES[c.v[0].rem_euclid(12) as usize] {
            "isize" => i32::try_from(c.v[1]).is_ok(),
            "usize" => u32::try_from(c.v[1]).is_ok(),
            _ => true,
        };
    ops::domain(s, c) && same
}

fn gen(subs: &[Sub], g: &mut Gen) -> Case {
    loop {
        let c = if g.chance(1, 4) {
            let mut c = codec::calls::gen(g);
            c.op += CODEC;
            c
        } else {
            let k = g.below(subs.len() as u64);
            let mut c = ops::gen(&subs[k as usize], g);
            c.ty = k as u32;
            c
        };
        if domain(subs, &c) {
            return c;
        }
    }
}

fn result(subs: &[Sub], c: &Case) -> Vec<i128> {
    if c.op >= CODEC {
        let mut d = c.clone();
        d.op -= CODEC;
        return call(|| codec::calls::run(&d)).unwrap_or(vec![-77, -77, -77]);
    }
    let s = &subs[c.ty as usize];
    let mut r = ops::result(s, c);
    if fixed_op(s, c) == "order" && r.len() == 9 {
        // a hasher may see bytes in the platform's order
        r[7] = (r[7] == r[8]) as i128;
        r.pop();
    }
    r
}

fn show(subs: &[Sub], c: &Case) -> String {
    if c.op >= CODEC {
        let mut d = c.clone();
        d.op -= CODEC;
        codec::calls::show(&d)
    } else {
        ops::show(&subs[c.ty as usize], c)
    }
}

fn chunk_gen(seed: u64, chunk: u64) -> Gen {
    Gen::new(seed ^ chunk.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

fn main() {
    engine::init();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    let subs = ops::subjects();
    match a[1].as_str() {
        "digest" => {
            let (seed, chunks, cases) = (num(2), num(3), num(4));
            let next = AtomicU64::new(0);
            let out = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let chunk = next.fetch_add(1, Ordering::Relaxed);
                        if chunk >= chunks {
                            break;
                        }
                        let mut g = chunk_gen(seed, chunk);
                        let (mut h, mut ok) = (0xcbf2_9ce4_8422_2325u64, 0u64);
                        for _ in 0..cases {
                            let c = gen(&subs, &mut g);
                            let x = result(&subs, &c);
                            ok += (x.len() > 1 && x[0] != -77) as u64;
                            for w in x {
                                h = (h ^ w as u64 ^ (w >> 64) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                                h ^= h >> 31;
                            }
                            h = h.rotate_left(9).wrapping_add(7);
                        }
                        out.lock().unwrap().push((chunk, format!("{} {:016x} {}", chunk, h, ok)));
                    });
                }
            });
            let mut v = out.into_inner().unwrap();
            v.sort();
            for (_, l) in v {
                println!("{}", l);
            }
        }
        "dump" => {
            let mut g = chunk_gen(num(2), num(3));
            for _ in 0..num(4) {
                let c = gen(&subs, &mut g);
                // written first, in case the call ends the process
                println!("{}", c.line());
                println!("{:?}", result(&subs, &c));
            }
        }
        "emit" => {
            let mut g = Gen::new(num(2));
            for _ in 0..num(3) {
                println!("{}", gen(&subs, &mut g).line());
            }
        }
        "pack" => {
            for l in std::io::stdin().lines() {
                let c = Case::parse(&l.expect("stdin")).expect("case");
                std::io::stdout().write_all(&c.pack()).expect("stdout");
            }
        }
        "stream" => {
            let mut b = vec![];
            std::io::stdin().read_to_end(&mut b).expect("stdin");
            let mut b = &b[..];
            while !b.is_empty() {
                let c = Case::unpack(&mut b);
                let r = result(&subs, &c);
                std::io::stdout().write_all(format!("{:?}\n", r).as_bytes()).expect("stdout");
            }
            std::io::stdout().write_all(b"DONE\n").expect("stdout");
        }
        "shrinks" => {
            let c = Case::parse(&a[2]).expect("case");
            for k in c.shrinks().iter().filter(|k| domain(&subs, k)) {
                println!("{}", k.line());
            }
        }
        "show" => println!("{}", show(&subs, &Case::parse(&a[2]).expect("case"))),
        _ => panic!("what?"),
    }
}
