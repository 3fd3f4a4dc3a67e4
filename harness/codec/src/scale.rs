//! C19: the SCALE codec.
use crate::types::Num;
use crate::{cd, ntypes, same, Res};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::Gen;
use parity_scale_codec::{Decode, Encode, Error, Input};

pub struct Scale;

/// An input that hands out bytes without knowing how many are left.
struct Slow<'a>(&'a [u8]);
impl Input for Slow<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.0.len() {
            return Err("end of input".into());
        }
        let (a, b) = self.0.split_at(into.len());
        into.copy_from_slice(a);
        self.0 = b;
        Ok(())
    }
}

/// The compact encoding by the specification.
pub fn compact(u: u128) -> Vec<u8> {
    if u < 1 << 6 {
        vec![(u as u8) << 2]
    } else if u < 1 << 14 {
        ((u as u16) << 2 | 1).to_le_bytes().to_vec()
    } else if u < 1 << 30 {
        ((u as u32) << 2 | 2).to_le_bytes().to_vec()
    } else {
        let mut b = u.to_le_bytes().to_vec();
        while b.last() == Some(&0) {
            b.pop();
        }
        let mut o = vec![((b.len() as u8 - 4) << 2) | 3];
        o.extend(b);
        o
    }
}

pub fn check<T: Num>(c: &Case, cx: &mut Cx) -> Res {
    let t = T::TY;
    let n = (t.bits / 8) as usize;
    if c.op == 1 {
        // arbitrary bytes: fixed width, then compact, both ways of feeding them
        let b = &c.s[0];
        cx.label("bytes");
        cx.nontrivial();
        let want = if b.len() >= n { Some(le(&b[..n], t.bits)) } else { None };
        let mut i = &b[..];
        let got = call(|| T::decode(&mut i).ok().map(|x| x.raw()))?;
        same("decode", got, want)?;
        if want.is_some() {
            same("bytes left", i.len(), b.len() - n)?;
        }
        let mut i = Slow(b);
        same("decode from a stream", call(|| T::decode(&mut i).ok().map(|x| x.raw()))?, want)?;
        let mut p = &b[..];
        let plain = T::plain_compact(&mut p);
        let mut i = &b[..];
        let got = call(|| T::from_compact(&mut i).map(|x| x.raw()))?;
        cx.label(if plain.is_some() { "compact ok" } else { "compact error" });
        same("compact decode", got, plain)?;
        if plain.is_some() {
            same("bytes left after compact", i.len(), p.len())?;
        }
        let mut i = Slow(b);
        return same("compact decode from a stream", call(|| T::from_compact(&mut i).map(|x| x.raw()))?, plain);
    }
    let (x, y) = (c.v[0], c.v[1]);
    if !t.has(x) || !t.has(y) {
        return cx.skip();
    }
    cx.nontrivial_if(x != 0);
    let v = T::new(x);
    let want = x.to_le_bytes()[..n].to_vec();
    let got = call(|| v.encode())?;
    same("encode", &got, &want)?;
    same("encoded_size", call(|| v.encoded_size())?, n)?;
    same("using_encoded", call(|| v.using_encoded(|b| b.to_vec()))?, want.clone())?;
    let mut o = vec![7u8, 8];
    call(|| v.encode_to(&mut o))?;
    same("encode_to", &o[2..], &want[..])?;
    // read back, followed by other bytes, and truncated
    let mut long = want.clone();
    long.extend(y.to_le_bytes());
    let mut i = &long[..];
    same("decode", call(|| T::decode(&mut i).ok().map(|x| x.raw()))?, Some(x))?;
    same("bytes left", i.len(), 16)?;
    for k in 0..n {
        let mut i = &want[..k];
        same("decode of a truncated input", call(|| T::decode(&mut i).ok().map(|x| x.raw()))?, None)?;
    }
    // compact
    let u = x as u128 & (u128::MAX >> (128 - t.bits));
    let want = compact(u);
    cx.label(["", "1 byte", "2 bytes", "", "4 bytes"].get(want.len()).copied().unwrap_or("big integer"));
    same("compact", &call(|| v.compact())?, &want)?;
    same("compact of a reference", &call(|| v.compact_ref())?, &want)?;
    let mut long = want.clone();
    long.extend(y.to_le_bytes());
    let mut i = &long[..];
    same("compact decode", call(|| T::from_compact(&mut i).map(|x| x.raw()))?, Some(x))?;
    same("bytes left after compact", i.len(), 16)?;
    for k in 0..want.len() {
        let mut i = &want[..k];
        same("compact decode of a truncated input", call(|| T::from_compact(&mut i).map(|x| x.raw()))?, None)?;
    }
    // inside containers
    let w = T::new(y);
    let row = vec![v, w, v];
    let mut want = vec![12];
    for x in [x, y, x] {
        want.extend(&x.to_le_bytes()[..n]);
    }
    let b = call(|| row.encode())?;
    same("encode of a list", &b, &want)?;
    same("encode of an array", &call(|| [v, w, v].encode())?[..], &want[1..])?;
    let boxed = Box::new(v);
    same("encode of a boxed number", &call(|| boxed.encode())?[..], &want[1..1 + n])?;
    same("encoded_size of a list", call(|| row.encoded_size())?, want.len())?;
    same("list", call(|| Vec::<T>::decode(&mut &b[..]).ok())?, Some(row.clone()))?;
    same("list from a stream", call(|| Vec::<T>::decode(&mut Slow(&b)).ok())?, Some(row))?;
    same("truncated list", call(|| Vec::<T>::decode(&mut &b[..b.len() - 1]).is_err())?, true)?;
    same("array", call(|| <[T; 3]>::decode(&mut &b[1..]).ok())?, Some([v, w, v]))?;
    same("boxed number", call(|| Box::<T>::decode(&mut &b[1..]).ok())?, Some(Box::new(v)))?;
    let fixed = call(T::encoded_fixed_size)?;
    if fixed.is_some() {
        same("encoded_fixed_size", fixed, Some(n))?;
    }
    let mut i = &b[1..];
    same("skip", call(|| T::skip(&mut i).is_ok())?, true)?;
    same("bytes left after skip", i.len(), 2 * n)?;
    for k in 0..n {
        same("skip of a truncated input", call(|| T::skip(&mut &b[1..1 + k]).is_err())?, true)?;
    }
    let list = vec![(v, Some(w)), (w, None)];
    let b = call(|| list.encode())?;
    let mut want = vec![8];
    want.extend(&x.to_le_bytes()[..n]);
    want.push(1);
    want.extend(&y.to_le_bytes()[..n]);
    want.extend(&y.to_le_bytes()[..n]);
    want.push(0);
    same("encode of a list of pairs", &b, &want)?;
    let mut i = &b[..];
    let back: Option<Vec<(T, Option<T>)>> = call(|| parity_scale_codec::Decode::decode(&mut i).ok())?;
    same("list of pairs", back, Some(list))
}

fn le(b: &[u8], bits: u32) -> i128 {
    let mut w = [0; 16];
    w[..b.len()].copy_from_slice(b);
    (i128::from_le_bytes(w) << (128 - bits)) >> (128 - bits)
}

impl Prop for Scale {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let ty = (i % ntypes()) as u32;
        let t = cd(ty).ty();
        let val = |g: &mut Gen| {
            if g.bool() {
                // the boundaries between the compact modes, also as negative numbers
                let u = match g.below(3) {
                    0 => (1i128 << *g.pick(&[6, 14, 30, 32, 40, 48, 56, 64])) + g.range(-2, 2) as i128,
                    1 => (1i128 << g.below(127)) + g.range(-1, 1) as i128,
                    _ => g.mag(34) as i128,
                };
                (u << (128 - t.bits)) >> (128 - t.bits)
            } else {
                t.val(g)
            }
        };
        if g.chance(1, 3) {
            let mut b = match g.below(4) {
                0 => {
                    let x = val(g) as u128 & (u128::MAX >> (128 - t.bits));
                    compact(x)
                }
                1 => {
                    // a big-integer header with any body
                    let mut b = vec![(g.below(64) as u8) << 2 | 3];
                    for _ in 0..g.below(20) {
                        b.push(*g.clone().pick(&[0u8, 0xff]) ^ (g.next() as u8 & *g.clone().pick(&[0u8, 0xff])));
                    }
                    b
                }
                _ => {
                    let n = g.below(22);
                    (0..n).map(|_| g.next() as u8).collect()
                }
            };
            if g.chance(1, 3) && !b.is_empty() {
                let at = g.below(b.len() as u64) as usize;
                b[at] ^= 1 << g.below(8);
            }
            if g.chance(1, 4) {
                b.truncate(g.below(b.len() as u64 + 1) as usize);
            }
            return Case::text(ty, 1, b);
        }
        let (x, y) = (val(g), t.val(g));
        Case::new(ty, 0, &[x, y])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        cd(c.ty).scale(c, cx)
    }
    fn show(&self, c: &Case) -> String {
        format!("{} SCALE {} {:?} {:02x?}", cd(c.ty).name(), ["value", "bytes"][c.op.min(1) as usize], c.v, c.s)
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..ntypes() as u32 {
            let t = cd(ty).ty();
            if t.bits == 16 {
                for x in t.min()..=t.max() {
                    if x.rem_euclid(shards as i128) as u64 == shard && !f(Case::new(ty, 0, &[x, 1])) {
                        return;
                    }
                }
            }
            // every input of at most two bytes
            if ty as u64 % shards == shard {
                for a in 0..256u32 {
                    if !f(Case::text(ty, 1, vec![a as u8])) {
                        return;
                    }
                    for b in 0..256u32 {
                        if !f(Case::text(ty, 1, vec![a as u8, b as u8])) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            200_000_000
        } else {
            8_000_000
        }
    }
    fn rule(&self) -> String {
        "values of 15 types (all i16 values; compact mode boundaries at 2^6, 2^14, 2^30, every byte length; negative numbers) written and read back whole, followed by other bytes and at every truncation; arbitrary and damaged byte strings against the codec of the plain integer, all inputs up to two bytes; non-trivial = non-zero value or a byte string".into()
    }
}
