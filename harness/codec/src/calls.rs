//! Codec calls without any oracle, cheap enough for an interpreter.
use crate::types::Num;
use crate::{cd, ntypes};
use fxcore::case::Case;
use fxcore::gen::Gen;
use fxcore::text::{decimal, mutate};
use parity_scale_codec::{Decode, Encode};

pub fn gen(g: &mut Gen) -> Case {
    let ty = g.below(ntypes()) as u32;
    let t = cd(ty).ty();
    let op = g.below(5) as u32;
    match op {
        1 => {
            let mut s = decimal(g, t, false);
            if g.chance(1, 3) {
                s = mutate(g, s);
            }
            let q = if g.chance(3, 4) { "\"" } else { "" };
            Case::text(ty, op, format!("{q}{s}{q}").into_bytes())
        }
        3 => {
            let n = g.below(20) as usize;
            let mut b: Vec<u8> = (0..n).map(|_| g.below(256) as u8).collect();
            if n > 0 && g.bool() {
                b[0] = (g.below(16) as u8) << 2 | g.below(4) as u8;
            }
            Case::text(ty, op, b)
        }
        _ => Case::new(ty, op, &[t.val(g)]),
    }
}

/// What the calls return, in numbers.
pub fn run(c: &Case) -> Vec<i128> {
    cd(c.ty).calls(c)
}

pub fn call<T: Num>(c: &Case) -> Vec<i128> {
    fn raw<T: Num>(o: &mut Vec<i128>, x: Option<T>) {
        match x {
            Some(x) => o.extend([0, x.raw()]),
            None => o.push(1),
        }
    }
    fn bytes(o: &mut Vec<i128>, b: &[u8]) {
        o.extend(b.iter().map(|x| *x as i128));
    }
    let v = c.v.first().copied().unwrap_or(0);
    let b: &[u8] = c.s.first().map(|s| &s[..]).unwrap_or(&[]);
    let mut o = vec![];
    match c.op {
        0 => {
            let s = serde_json::to_string(&T::new(v)).expect("write");
            bytes(&mut o, s.as_bytes());
            raw(&mut o, serde_json::from_str::<T>(&s).ok());
        }
        1 => raw(&mut o, serde_json::from_slice::<T>(b).ok()),
        2 => {
            let s = T::new(v).encode();
            bytes(&mut o, &s);
            raw(&mut o, T::decode(&mut &s[..]).ok());
            let s = T::new(v).compact();
            bytes(&mut o, &s);
            bytes(&mut o, &T::new(v).compact_ref());
            raw(&mut o, T::from_compact(&mut &s[..]));
            let s = vec![T::new(v), T::new(0), T::new(v)].encode();
            bytes(&mut o, &s);
            match Vec::<T>::decode(&mut &s[..]) {
                Ok(l) => o.extend(l.iter().map(|x| x.raw())),
                Err(_) => o.push(1),
            }
        }
        3 => {
            raw(&mut o, T::decode(&mut &b[..]).ok());
            raw(&mut o, T::from_compact(&mut &b[..]));
        }
        _ => {
            let s = bincode::serialize(&T::new(v)).expect("write");
            bytes(&mut o, &s);
            raw(&mut o, bincode::deserialize::<T>(&s).ok());
            let s = bincode::serialize(&[T::new(v), T::new(0)]).expect("write");
            bytes(&mut o, &s);
        }
    }
    o
}

pub fn show(c: &Case) -> String {
    let what = ["JSON round trip", "JSON document", "SCALE round trips", "SCALE bytes", "bincode round trip"][c.op as usize];
    match c.s.first() {
        Some(s) => format!("{} {} {:?}", cd(c.ty).name(), what, String::from_utf8_lossy(s)),
        None => format!("{} {} of raw {}", cd(c.ty).name(), what, c.v[0]),
    }
}
