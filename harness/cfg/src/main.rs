//! C22: runs the same generated calls in whatever configuration it is built in and prints digests.
//!
//!     cfg digest SEED CHUNKS CASES    "type chunk digest" per type and chunk
//!     cfg dump SEED CASES TYPE CHUNK  every case with its result
//!     cfg one TYPE LINE               the result of one case
//!     cfg emit|pack|shrinks|show|stream  as in the crate `ub`, for C23
#![allow(dead_code)]
mod codecs;
mod ops;
#[path = "../../fx/src/types.rs"]
mod types;

use fxcore::case::Case;
use fxcore::gen::Gen;
use ops::{gen, result, show, subjects};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn seeded(seed: u64, name: &str, chunk: u64) -> Gen {
    let mut h = seed ^ chunk.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    Gen::new(h)
}

/// The calls of a type, or what a codec does with it.
enum Any {
    Ops(ops::Sub),
    Codec(codecs::Sub),
}
impl Any {
    fn all() -> Vec<Any> {
        let ops = subjects().into_iter().map(Any::Ops);
        ops.chain(codecs::subjects().into_iter().map(Any::Codec)).collect()
    }
    fn name(&self) -> String {
        match self {
            Any::Ops(s) => s.name(),
            Any::Codec(s) => s.name.clone(),
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        match self {
            Any::Ops(s) => gen(s, g),
            Any::Codec(s) => s.gen(g),
        }
    }
    fn result(&self, c: &Case) -> Vec<i128> {
        match self {
            Any::Ops(s) => result(s, c),
            Any::Codec(s) => s.result(c),
        }
    }
    fn show(&self, c: &Case) -> String {
        match self {
            Any::Ops(s) => show(s, c),
            Any::Codec(s) => s.show(c),
        }
    }
}

fn main() {
    fxcore::engine::init();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    let subs = subjects();
    let all = Any::all();
    match a[1].as_str() {
        "digest" => {
            let (seed, chunks, cases) = (num(2), num(3), num(4));
            let next = AtomicUsize::new(0);
            let out = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        let (ty, chunk) = (k / chunks as usize, k as u64 % chunks);
                        if ty >= all.len() {
                            break;
                        }
                        let s = &all[ty];
                        let mut g = seeded(seed, &s.name(), chunk);
                        let mut h = 0xcbf2_9ce4_8422_2325u64;
                        let (mut ok, mut panics) = (0u64, 0u64);
                        for _ in 0..cases {
                            let c = s.gen(&mut g);
                            let x = s.result(&c);
                            panics += (x == [-77, -77, -77]) as u64;
                            ok += (x.len() > 1) as u64;
                            for w in x {
                                h = (h ^ w as u64 ^ (w >> 64) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                                h ^= h >> 31;
                            }
                            h = h.rotate_left(9).wrapping_add(7);
                        }
                        out.lock().unwrap().push(format!("{} {} {:016x} {} {}", s.name(), chunk, h, ok, panics));
                    });
                }
            });
            let mut v = out.into_inner().unwrap();
            v.sort();
            println!("{}", v.join("\n"));
        }
        "dump" => {
            let (seed, cases, chunk) = (num(2), num(3), num(5));
            let s = all.iter().find(|s| s.name() == a[4]).expect("no such type here");
            let mut g = seeded(seed, &s.name(), chunk);
            for _ in 0..cases {
                let c = s.gen(&mut g);
                // written first, in case the call ends the process
                println!("{}\t{}\t", c.line(), s.show(&c));
                println!("{:?}", s.result(&c));
            }
        }
        "one" => {
            let s = all.iter().find(|s| s.name() == a[2]).expect("no such type here");
            let c = Case::parse(&a[3]).expect("case");
            println!("{}\t{}\t", c.line(), s.show(&c));
            println!("{:?}", s.result(&c));
        }
        // for Miri: as in the crate `ub`
        "emit" => {
            let mut g = Gen::new(num(2));
            for _ in 0..num(3) {
                println!("{}", ops::emit(&subs, &mut g).line());
            }
        }
        "pack" => {
            for l in std::io::stdin().lines() {
                let c = Case::parse(&l.expect("stdin")).expect("case");
                std::io::stdout().write_all(&c.pack()).expect("stdout");
            }
        }
        "shrinks" => {
            let c = Case::parse(&a[2]).expect("case");
            let ok = |k: &Case| ops::domain(&subs[k.ty as usize], k);
            for k in c.shrinks().iter().filter(|k| ok(k)) {
                println!("{}", k.line());
            }
        }
        "show" => {
            let c = Case::parse(&a[2]).expect("case");
            println!("{}", show(&subs[c.ty as usize], &c));
        }
        "stream" => {
            let mut b = vec![];
            std::io::stdin().read_to_end(&mut b).expect("stdin");
            let mut b = &b[..];
            while !b.is_empty() {
                let c = Case::unpack(&mut b);
                std::io::stdout().write_all(b".\n").expect("stdout");
                let _ = fxcore::engine::call(|| ops::call(&subs[c.ty as usize], &c));
            }
            std::io::stdout().write_all(b"DONE\n").expect("stdout");
        }
        _ => panic!("what?"),
    }
}
