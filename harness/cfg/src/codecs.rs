//! What serde and SCALE do with a type, for the configurations that have them.
use fxcore::case::Case;
use fxcore::gen::{Gen, Ty};

pub struct Sub {
    pub name: String,
    kinds: u64,
    ty: Ty,
    call: fn(&Case) -> Vec<i128>,
}

#[allow(unused_imports, unused_macros)]
mod imp {
    use super::*;
    use fixnum::typenum::*;
    use fixnum::FixedPoint;

    fn bytes(o: &mut Vec<i128>, b: &[u8]) {
        o.extend(b.iter().map(|x| *x as i128));
    }

    #[cfg(feature = "serde")]
    macro_rules! serde_call {
        ($L:ident, $P:ident) => {{
            fn call(c: &Case) -> Vec<i128> {
                use fixnum::serde as fs;
                type F = FixedPoint<$L, $P>;
                let mut o = vec![];
                fn raw(o: &mut Vec<i128>, x: Option<F>) {
                    match x {
                        Some(x) => o.extend([0, x.into_bits() as i128]),
                        None => o.push(1),
                    }
                }
                fn opt(o: &mut Vec<i128>, x: Option<Option<F>>) {
                    match x {
                        Some(Some(x)) => o.extend([0, x.into_bits() as i128]),
                        Some(None) => o.push(2),
                        None => o.push(1),
                    }
                }
                if let Some(text) = c.s.first() {
                    raw(&mut o, serde_json::from_slice(text).ok());
                    raw(&mut o, serde_json::from_reader(&text[..]).ok());
                    macro_rules! read {
                        ($with:ident, $add:ident) => {
                            let mut d = serde_json::Deserializer::from_slice(text);
                            $add(&mut o, fs::$with::deserialize::<F, $L, $P, _>(&mut d).ok());
                        };
                    }
                    read!(repr, raw);
                    read!(str, raw);
                    read!(float, raw);
                    read!(repr_option, opt);
                    read!(str_option, opt);
                    read!(float_option, opt);
                    return o;
                }
                let x = F::from_bits(c.v[0] as $L);
                let s = serde_json::to_vec(&x).expect("write");
                bytes(&mut o, &s);
                raw(&mut o, serde_json::from_slice(&s).ok());
                let s = bincode::serialize(&x).expect("write");
                bytes(&mut o, &s);
                raw(&mut o, bincode::deserialize(&s).ok());
                macro_rules! round {
                    ($with:ident, $with_option:ident) => {
                        let mut s = vec![];
                        fs::$with::serialize::<F, $L, $P, _>(&x, &mut serde_json::Serializer::new(&mut s)).expect("write");
                        bytes(&mut o, &s);
                        let mut s = vec![];
                        let some = if c.v[1] == 0 { None } else { Some(x) };
                        fs::$with_option::serialize::<F, $L, $P, _>(&some, &mut serde_json::Serializer::new(&mut s)).expect("write");
                        bytes(&mut o, &s);
                        let mut d = serde_json::Deserializer::from_slice(&s);
                        opt(&mut o, fs::$with_option::deserialize::<F, $L, $P, _>(&mut d).ok());
                    };
                }
                round!(repr, repr_option);
                round!(str, str_option);
                round!(float, float_option);
                o
            }
            call
        }};
    }

    #[cfg(feature = "parity")]
    macro_rules! scale_call {
        ($L:ident, $P:ident) => {{
            fn call(c: &Case) -> Vec<i128> {
                use parity_scale_codec::{Compact, CompactAs, Decode, Encode};
                type F = FixedPoint<$L, $P>;
                let mut o = vec![];
                fn raw(o: &mut Vec<i128>, x: Option<F>) {
                    match x {
                        Some(x) => o.extend([0, x.into_bits() as i128]),
                        None => o.push(1),
                    }
                }
                if let Some(b) = c.s.first() {
                    raw(&mut o, F::decode(&mut &b[..]).ok());
                    raw(&mut o, Compact::<F>::decode(&mut &b[..]).ok().map(|x| x.into()));
                    return o;
                }
                let x = F::from_bits(c.v[0] as $L);
                bytes(&mut o, &x.encode());
                let s = Compact(x).encode();
                bytes(&mut o, &s);
                raw(&mut o, Compact::<F>::decode(&mut &s[..]).ok().map(|x| x.into()));
                o.push(*x.encode_as() as i128);
                o
            }
            call
        }};
    }

    macro_rules! subs {
        ($out:ident $layout:literal $L:ident: $($P:ident)*) => {
            #[cfg(feature = $layout)]
            {
                $(
                    let ty = Ty { bits: $L::BITS, prec: <$P as Unsigned>::U32 };
                    #[cfg(feature = "serde")]
                    $out.push(Sub { name: format!("serde:{}/{}", $layout, ty.prec), kinds: 2, ty, call: serde_call!($L, $P) });
                    #[cfg(feature = "parity")]
                    $out.push(Sub { name: format!("scale:{}/{}", $layout, ty.prec), kinds: 3, ty, call: scale_call!($L, $P) });
                    let _ = ty;
                )*
            }
        };
    }

    pub fn subjects() -> Vec<Sub> {
        #[allow(unused_mut)]
        let mut out: Vec<Sub> = vec![];
        subs!(out "i16" i16: U0 U3);
        subs!(out "i32" i32: U0 U8);
        subs!(out "i64" i64: U0 U9 U18);
        subs!(out "i128" i128: U0 U18 U38);
        out
    }
}
pub use imp::subjects;

impl Sub {
    pub fn gen(&self, g: &mut Gen) -> Case {
        let t = self.ty;
        if g.chance(1, 2) {
            return Case::new(0, 0, &[t.val(g), g.below(4) as i128]);
        }
        if self.kinds == 3 {
            let n = g.below(20) as usize;
            let mut b: Vec<u8> = (0..n).map(|_| g.below(256) as u8).collect();
            if n > 0 && g.bool() {
                b[0] = (g.below(16) as u8) << 2 | g.below(4) as u8;
            }
            return Case::text(0, 1, b);
        }
        let s = match g.below(6) {
            0 => format!("{}", t.val(g)),
            1 => format!("{:e}", fxcore::gen::float(g, t)),
            2 => ["null", "true", "[]", "{}", "\"\"", "{\"$value\":\"1\"}"][g.below(5) as usize].to_string(),
            3 => fxcore::text::decimal(g, t, false),
            _ => {
                let mut s = fxcore::text::decimal(g, t, false);
                if g.chance(1, 3) {
                    s = fxcore::text::mutate(g, s);
                }
                format!("\"{s}\"")
            }
        };
        Case::text(0, 1, s.into_bytes())
    }

    pub fn result(&self, c: &Case) -> Vec<i128> {
        fxcore::engine::call(|| (self.call)(c)).unwrap_or(vec![-77, -77, -77])
    }

    pub fn show(&self, c: &Case) -> String {
        match c.s.first() {
            Some(s) if self.kinds == 3 => format!("{} decode {s:02x?}", self.name),
            Some(s) => format!("{} read {}", self.name, String::from_utf8_lossy(s).escape_debug()),
            None => format!("{} write and read raw {}", self.name, c.v[0]),
        }
    }
}
