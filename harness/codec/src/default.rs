//! C17: the default `Serialize` and `Deserialize`.
use crate::types::Num;
use crate::{cd, ntypes, same, want, Res};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{float, Gen, Ty};
use fxcore::text::{canonical, decimal, mutate};
use fxcore::wide::I;
use serde::de::value as sv;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::borrow::Cow;
use std::collections::BTreeMap;

pub struct Default_;

#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Field<X> {
    pub v: X,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Flat<X> {
    #[serde(flatten)]
    pub inner: X,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[serde(untagged)]
pub enum Either<X> {
    One(X),
    Pair { x: X },
}
type Many<X> = (X, Vec<X>, Option<X>, Option<X>, [X; 2], Box<Field<X>>);

fn many<X: Copy>(a: X, b: X) -> Many<X> {
    (a, vec![b, a, b], Some(b), None, [a, b], Box::new(Field { v: b }))
}

type E = sv::Error;

fn json<X: DeserializeOwned>(s: &[u8]) -> [Option<X>; 2] {
    [serde_json::from_slice(s).ok(), serde_json::from_reader(s).ok()]
}

pub fn cbor<X: Serialize>(x: &X) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    ciborium::into_writer(x, &mut o).map_err(|e| e.to_string())?;
    Ok(o)
}
pub fn uncbor<X: DeserializeOwned>(mut b: &[u8]) -> (Option<X>, usize) {
    let x = ciborium::from_reader(&mut b).ok();
    (x, b.len())
}

/// What a JSON document has to give.
fn doc<T: Num>(s: &[u8]) -> Option<i128> {
    let v: Value = serde_json::from_slice(s).ok()?;
    value::<T>(&v)
}
fn value<T: Num>(v: &Value) -> Option<i128> {
    match v {
        Value::String(s) => want::text::<T>(s),
        Value::Number(n) => {
            if let Some(x) = n.as_i64() {
                want::int::<T>(I::from(x as i128))
            } else if let Some(x) = n.as_u64() {
                want::int::<T>(I::from(x as i128))
            } else {
                want::float::<T>(n.as_f64()?)
            }
        }
        // how quick-xml spells an element
        Value::Object(o) if o.len() == 1 => want::text::<T>(o.get("$value")?.as_str()?),
        _ => None,
    }
}

fn raw<T: Num>(x: Option<T>) -> Option<i128> {
    x.map(|x| x.raw())
}

fn round_trip<T: Num>(x: i128, y: i128, cx: &mut Cx) -> Res {
    let t = T::TY;
    let (a, b) = (T::new(x), T::new(y));
    let text = canonical(x, t.prec);
    cx.label(if x < 0 { "negative" } else { "non-negative" });
    // text
    let j = call(|| serde_json::to_string(&a).map_err(|e| e.to_string()))??;
    same("JSON", &j, &format!("\"{}\"", text))?;
    let v = call(|| serde_json::to_value(a).map_err(|e| e.to_string()))??;
    same("JSON value", &v, &Value::String(text.clone()))?;
    for (how, got) in ["slice", "reader"].iter().zip(call(|| json::<T>(j.as_bytes()))?) {
        same(how, raw(got), Some(x))?;
    }
    same("from value", raw(call(|| serde_json::from_value::<T>(v.clone()).ok())?), Some(x))?;
    same("from &value", raw(call(|| T::deserialize(&v).ok())?), Some(x))?;
    let esc: String = text.chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
    same("escaped", raw(call(|| serde_json::from_str::<T>(&format!("\"{}\"", esc)).ok())?), Some(x))?;
    let m = many(a, b);
    let mj = call(|| serde_json::to_string(&m).map_err(|e| e.to_string()))??;
    let (s, r) = (text.clone(), canonical(y, t.prec));
    let mirror: Many<&str> = (&s, vec![&r, &s, &r], Some(&r), None, [&s, &r], Box::new(Field { v: &r[..] }));
    same("JSON of containers", &mj, &serde_json::to_string(&mirror).unwrap())?;
    for got in call(|| json::<Many<T>>(mj.as_bytes()))? {
        same("containers", got, Some(many(a, b)))?;
    }
    let map: BTreeMap<T, T> = [(a, b), (b, a)].into_iter().collect();
    let kj = call(|| serde_json::to_string(&map).map_err(|e| e.to_string()))??;
    for got in call(|| json::<BTreeMap<T, T>>(kj.as_bytes()))? {
        same("map keys", got.as_ref(), Some(&map))?;
    }
    let f = Flat { inner: Field { v: a } };
    let fj = call(|| serde_json::to_string(&f).map_err(|e| e.to_string()))??;
    same("flattened JSON", &fj, &format!("{{\"v\":\"{}\"}}", text))?;
    for got in call(|| json::<Flat<Field<T>>>(fj.as_bytes()))? {
        same("flattened", got.map(|x| x.inner.v), Some(a))?;
    }
    for got in call(|| json::<Either<T>>(j.as_bytes()))? {
        same("untagged", got, Some(Either::One(a)))?;
    }
    // binary
    let l = T::layout(x);
    let n = (t.bits / 8) as usize;
    let bin = call(|| bincode::serialize(&a).map_err(|e| e.to_string()))??;
    same("bincode", &bin[..], &x.to_le_bytes()[..n])?;
    same("from bincode", raw(call(|| bincode::deserialize::<T>(&bin).ok())?), Some(x))?;
    same("from bincode reader", raw(call(|| bincode::deserialize_from::<_, T>(&bin[..]).ok())?), Some(x))?;
    let mb = call(|| bincode::serialize(&m).map_err(|e| e.to_string()))??;
    same("bincode of containers", &mb, &bincode::serialize(&many(l, T::layout(y))).unwrap())?;
    same(
        "containers from bincode",
        call(|| bincode::deserialize::<Many<T>>(&mb).ok())?.as_ref(),
        Some(&m),
    )?;
    let c = call(|| cbor(&a))??;
    same("CBOR", &c, &cbor(&l)?)?;
    same("from CBOR", raw(call(|| uncbor::<T>(&c).0)?), Some(x))?;
    let mc = call(|| cbor(&m))??;
    same("CBOR of containers", &mc, &cbor(&many(l, T::layout(y)))?)?;
    same("containers from CBOR", call(|| uncbor::<Many<T>>(&mc).0)?.as_ref(), Some(&m))
}

/// Texts as strings of every lifetime.
fn texts<T: Num>(s: &str, cx: &mut Cx) -> Res {
    let w = want::text::<T>(s);
    cx.label(if w.is_some() { "text ok" } else { "text error" });
    same("FromStr", raw(call(|| s.parse::<T>().ok())?), w)?;
    let j = serde_json::to_string(s).unwrap();
    for got in call(|| json::<T>(j.as_bytes()))? {
        same("JSON string", raw(got), w)?;
    }
    same("JSON value", raw(call(|| serde_json::from_value::<T>(Value::String(s.into())).ok())?), w)?;
    same("str", raw(call(|| T::deserialize(sv::StrDeserializer::<E>::new(s)).ok())?), w)?;
    same("borrowed str", raw(call(|| T::deserialize(sv::BorrowedStrDeserializer::<E>::new(s)).ok())?), w)?;
    same("String", raw(call(|| T::deserialize(sv::StringDeserializer::<E>::new(s.to_string())).ok())?), w)?;
    same("Cow", raw(call(|| T::deserialize(sv::CowStrDeserializer::<E>::new(Cow::Borrowed(s))).ok())?), w)?;
    let m: BTreeMap<&str, &str> = [("$value", s)].into_iter().collect();
    same(
        "map with $value",
        raw(call(|| T::deserialize(sv::MapDeserializer::<_, E>::new(m.into_iter())).ok())?),
        w,
    )?;
    for got in call(|| json::<Either<T>>(j.as_bytes()))? {
        same("untagged", got, w.map(|x| Either::One(T::new(x))))?;
    }
    // as bytes it is not a text
    same("bytes", raw(call(|| T::deserialize(sv::BytesDeserializer::<E>::new(s.as_bytes())).ok())?), None)?;
    // XML: whatever the reader gives for a String
    let xml: String = s
        .chars()
        .map(|c| match c {
            '&' => "&amp;".into(),
            '<' => "&lt;".into(),
            '>' => "&gt;".into(),
            '"' => "&quot;".into(),
            c => c.to_string(),
        })
        .collect();
    let docs = [
        format!("<a><v>{}</v></a>", xml),
        format!("<a v=\"{}\"></a>", xml),
        format!("<a v=\"{}\"/>", xml),
        format!("<a><v><![CDATA[{}]]></v></a>", s.replace("]]>", "")),
    ];
    for d in &docs {
        let plain = quick_xml::de::from_str::<Field<String>>(d).ok();
        let w = plain.and_then(|p| want::text::<T>(&p.v));
        let got = call(|| quick_xml::de::from_str::<Field<T>>(d).ok())?;
        same(d, got.map(|x| x.v.raw()), w)?;
        let got = call(|| quick_xml::de::from_reader::<_, Field<T>>(d.as_bytes()).ok())?;
        same(d, got.map(|x| x.v.raw()), w)?;
    }
    let d = format!("<a>{}</a>", xml);
    let w = quick_xml::de::from_str::<String>(&d).ok().and_then(|s| want::text::<T>(&s));
    same(&d, raw(call(|| quick_xml::de::from_str::<T>(&d).ok())?), w)
}

#[allow(irrefutable_let_patterns)]
fn ints<T: Num>(n: i128, cx: &mut Cx) -> Res {
    let w = want::int::<T>(I::from(n));
    cx.label(if w.is_some() { "int ok" } else { "int error" });
    macro_rules! each {
        ($($t:ty, $d:ident;)*) => {
            $(if let Ok(n) = <$t>::try_from(n) {
                same(stringify!($t), raw(call(|| T::deserialize(sv::$d::<E>::new(n)).ok())?), w)?;
            })*
        };
    }
    each! {
        i8, I8Deserializer; i16, I16Deserializer; i32, I32Deserializer; i64, I64Deserializer; i128, I128Deserializer;
        u8, U8Deserializer; u16, U16Deserializer; u32, U32Deserializer; u64, U64Deserializer; u128, U128Deserializer;
        isize, IsizeDeserializer; usize, UsizeDeserializer;
    }
    // as all 128 bits unsigned
    let u = n as u128;
    let uw = if n < 0 { None } else { w };
    same("u128", raw(call(|| T::deserialize(sv::U128Deserializer::<E>::new(u)).ok())?), uw)?;
    let j = n.to_string();
    let jw = doc::<T>(j.as_bytes());
    if n as i64 as i128 == n || n as u64 as i128 == n {
        same("harness: int in JSON", jw, w)?;
    }
    for got in call(|| json::<T>(j.as_bytes()))? {
        same("JSON int", raw(got), jw)?;
    }
    Ok(())
}

pub fn check<T: Num>(c: &Case, cx: &mut Cx) -> Res {
    let t = T::TY;
    match c.op {
        0 => {
            if !t.has(c.v[0]) || !t.has(c.v[1]) {
                return cx.skip();
            }
            cx.nontrivial_if(c.v[0] != 0);
            round_trip::<T>(c.v[0], c.v[1], cx)
        }
        1 => {
            let s = &c.s[0];
            if s.windows(6).filter(|w| w == b"$value").count() > 1 {
                // a document with one key twice is not judged
                return cx.skip();
            }
            cx.nontrivial();
            let w = doc::<T>(s);
            cx.label(if w.is_some() { "document ok" } else { "document error" });
            for got in call(|| json::<T>(s))? {
                same("JSON document", raw(got), w)?;
            }
            if let Ok(v) = serde_json::from_slice::<Value>(s) {
                same("JSON value", raw(call(|| serde_json::from_value::<T>(v.clone()).ok())?), w)?;
                let o = match &v {
                    Value::Null => Some(None),
                    v => value::<T>(v).map(|x| Some(T::new(x))),
                };
                same("Option", call(|| serde_json::from_slice::<Option<T>>(s).ok())?, o)?;
            }
            Ok(())
        }
        2 => {
            let Ok(s) = std::str::from_utf8(&c.s[0]) else { return cx.skip() };
            cx.nontrivial();
            texts::<T>(s, cx)
        }
        3 => {
            cx.nontrivial_if(c.v[0] != 0);
            ints::<T>(c.v[0], cx)
        }
        4 => {
            let x = f64::from_bits(c.v[0] as u64);
            cx.nontrivial_if(x != 0.0);
            let w = want::float::<T>(x);
            cx.label(if w.is_some() { "float ok" } else { "float error" });
            same("f64", raw(call(|| T::deserialize(sv::F64Deserializer::<E>::new(x)).ok())?), w)?;
            let y = x as f32;
            same(
                "f32",
                raw(call(|| T::deserialize(sv::F32Deserializer::<E>::new(y)).ok())?),
                want::float::<T>(y as f64),
            )?;
            if x.is_finite() {
                let j = serde_json::to_string(&x).unwrap();
                let w = doc::<T>(j.as_bytes());
                for got in call(|| json::<T>(j.as_bytes()))? {
                    same("JSON float", raw(got), w)?;
                }
                same(
                    "JSON value",
                    raw(call(|| serde_json::from_value::<T>(Value::from(x)).ok())?),
                    value::<T>(&Value::from(x)),
                )?;
            }
            Ok(())
        }
        5 => {
            // bytes against the reader of the plain integer
            let b = &c.s[0];
            cx.nontrivial();
            let w = bincode::deserialize::<T::Layout>(b).ok().map(T::layout_raw);
            same("bincode bytes", raw(call(|| bincode::deserialize::<T>(b).ok())?), w)?;
            same("bincode stream", raw(call(|| bincode::deserialize_from::<_, T>(&b[..]).ok())?), w)?;
            let w = bincode::deserialize::<Vec<T::Layout>>(b)
                .ok()
                .map(|v| v.into_iter().map(T::layout_raw).collect::<Vec<_>>());
            let got = call(|| bincode::deserialize::<Vec<T>>(b).ok())?;
            same("bincode list", got.map(|v| v.into_iter().map(|x| x.raw()).collect()), w)?;
            let (w, left) = uncbor::<T::Layout>(b);
            let (got, l) = call(|| uncbor::<T>(b))?;
            cx.label(if w.is_some() { "CBOR ok" } else { "CBOR error" });
            same("CBOR bytes", raw(got), w.map(T::layout_raw))?;
            if w.is_some() {
                same("bytes left", l, left)?;
            }
            Ok(())
        }
        _ => {
            // other kinds of things
            cx.nontrivial();
            cx.label("other kinds");
            let k = c.v[0] as u64;
            same("bool", raw(call(|| T::deserialize(sv::BoolDeserializer::<E>::new(k & 1 == 1)).ok())?), None)?;
            same("unit", raw(call(|| T::deserialize(sv::UnitDeserializer::<E>::new()).ok())?), None)?;
            let l = vec![k as i16; (k % 5) as usize];
            same(
                "list",
                raw(call(|| T::deserialize(sv::SeqDeserializer::<_, E>::new(l.clone().into_iter())).ok())?),
                None,
            )?;
            let m: Vec<(String, i16)> = (0..k % 3)
                .map(|i| (["a", "$value", "$text"][((k >> 8) as usize + i as usize) % 3].into(), k as i16))
                .collect();
            if m.first().map(|x| x.0 != "$value").unwrap_or(true) {
                same(
                    "map",
                    raw(call(|| T::deserialize(sv::MapDeserializer::<_, E>::new(m.clone().into_iter())).ok())?),
                    None,
                )?;
            }
            let m: Vec<(u32, String)> = vec![(k as u32, "1".into())];
            same(
                "map with integer keys",
                raw(call(|| T::deserialize(sv::MapDeserializer::<_, E>::new(m.clone().into_iter())).ok())?),
                None,
            )?;
            let ch = char::from_u32((k % 128) as u32).unwrap();
            same(
                "char",
                raw(call(|| T::deserialize(sv::CharDeserializer::<E>::new(ch)).ok())?),
                want::text::<T>(&ch.to_string()),
            )
        }
    }
}

/// A JSON document about numbers.
pub fn document(g: &mut Gen, t: Ty) -> String {
    let text = |g: &mut Gen| decimal(g, t, false);
    match g.below(12) {
        0 => {
            // any string
            let mut s = text(g);
            for _ in 0..g.below(3) {
                s = mutate(g, s);
            }
            serde_json::to_string(&s).unwrap()
        }
        1 => {
            // some characters escaped
            let s = text(g);
            let mut o = String::from("\"");
            for c in s.chars() {
                if g.chance(1, 3) || (c as u32) < 32 {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{:04x}", u));
                    }
                } else {
                    o.push(c);
                }
            }
            o.push('"');
            if g.chance(1, 6) {
                o = mutate(g, o);
            }
            o
        }
        2 | 3 => {
            // integers at the bounds of the type and of the integers
            let b = match g.below(4) {
                0 => t.max() / t.coef(),
                1 => t.min() / t.coef(),
                2 => 1i128 << *g.pick(&[15, 16, 31, 32, 63, 64, 65]),
                _ => -(1i128 << *g.pick(&[15, 16, 31, 32, 63, 64, 65])),
            };
            (b.saturating_add(g.range(-2, 2) as i128)).to_string()
        }
        4 => g.signed(66).to_string(),
        5 => format!("{:?}", float(g, t)),
        6 => {
            // a number with many digits
            let s = text(g);
            format!("{}{}", s.trim(), ["", "e0", "e1", "E-2", "e400", "e-400"][g.below(6) as usize])
        }
        7 => {
            let v = serde_json::to_string(&text(g)).unwrap();
            let k = *g.pick(&["$value", "$value", "$text", "", "v", "$valu"]);
            match g.below(4) {
                0 => format!("{{\"{}\":{}}}", k, g.signed(14)),
                1 => format!("{{\"{}\":{},\"x\":1}}", k, v),
                _ => format!("{{ \"{}\" : {} }}", k, v),
            }
        }
        8 => (*g.pick(&[
            "null",
            "true",
            "false",
            "[]",
            "{}",
            "[1]",
            "\"\"",
            "",
            "-",
            "1.",
            "-0",
            "-0.0",
            "0",
            "[[[",
            "nul",
            "1 1",
            "\"1\"\"2\"",
        ]))
        .to_string(),
        9 => format!("[{}]", text(g)),
        _ => {
            let mut s = serde_json::to_string(&text(g)).unwrap();
            if g.bool() {
                s = mutate(g, s);
            }
            s
        }
    }
}

/// Bytes near those of real values.
pub fn bytes(g: &mut Gen, t: Ty) -> Vec<u8> {
    let x = if g.bool() { t.val(g) } else { g.signed(127) };
    let mut b = match g.below(6) {
        0 => x.to_le_bytes()[..(t.bits / 8) as usize].to_vec(),
        1 => cbor(&x).unwrap(),
        2 => {
            // a bignum of any length
            let n = g.below(22) as usize;
            let mut b = vec![if g.bool() { 0xc2 } else { 0xc3 }, 0x40 + n as u8];
            for _ in 0..n {
                let z = g.bool();
                b.push(if z { 0 } else { g.next() as u8 });
            }
            b
        }
        3 => {
            let mut b = (g.below(4)).to_le_bytes().to_vec();
            for _ in 0..g.below(4) {
                let x = t.val(g);
                b.extend(&x.to_le_bytes()[..(t.bits / 8) as usize]);
            }
            b
        }
        4 => match g.below(4) {
            0 => cbor(&decimal(g, t, false)).unwrap(),
            1 => cbor(&float(g, t)).unwrap(),
            2 => cbor(&vec![x]).unwrap(),
            _ => cbor(&Some(x)).unwrap(),
        },
        _ => {
            let n = g.below(24);
            (0..n).map(|_| g.next() as u8).collect()
        }
    };
    damage(g, &mut b);
    b
}
pub fn damage(g: &mut Gen, b: &mut Vec<u8>) {
    if g.chance(1, 3) && !b.is_empty() {
        let at = g.below(b.len() as u64) as usize;
        b[at] ^= 1 << g.below(8);
    }
    if g.chance(1, 5) {
        b.truncate(g.below(b.len() as u64 + 1) as usize);
    }
    if g.chance(1, 8) {
        b.push(g.next() as u8);
    }
}

impl Prop for Default_ {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let ty = (i % ntypes()) as u32;
        let t = cd(ty).ty();
        match g.below(16) {
            0..=4 => {
                let (x, y) = (t.val(g), t.val(g));
                Case::new(ty, 0, &[x, y])
            }
            5..=7 => {
                let s = document(g, t);
                Case::text(ty, 1, s.into_bytes())
            }
            8 | 9 => {
                let mut s = decimal(g, t, false);
                if g.chance(1, 3) {
                    s = mutate(g, s);
                }
                Case::text(ty, 2, s.into_bytes())
            }
            10..=11 => {
                let n = match g.below(3) {
                    0 => {
                        let b = if g.bool() { t.max() } else { t.min() };
                        (b / t.coef()).saturating_add(g.range(-2, 2) as i128)
                    }
                    1 => {
                        let b = 1i128 << *g.pick(&[7, 8, 15, 16, 31, 32, 63, 64]);
                        let b = b + g.range(-2, 1) as i128;
                        if g.bool() {
                            b
                        } else {
                            -b
                        }
                    }
                    _ => g.signed(127),
                };
                Case::new(ty, 3, &[n])
            }
            12 | 13 => {
                let x = float(g, t);
                Case::new(ty, 4, &[x.to_bits() as i128])
            }
            14 => {
                let b = bytes(g, t);
                Case::text(ty, 5, b)
            }
            _ => {
                let k = g.next() >> 1;
                Case::new(ty, 6, &[k as i128])
            }
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        cd(c.ty).default(c, cx)
    }
    fn show(&self, c: &Case) -> String {
        let n = cd(c.ty).name();
        match c.op {
            0 => format!("{} round trip of raw {:?}", n, c.v),
            1 => format!("{} from JSON {}", n, String::from_utf8_lossy(&c.s[0])),
            2 => format!("{} from text {:?}", n, String::from_utf8_lossy(&c.s[0])),
            3 => format!("{} from integer {}", n, c.v[0]),
            4 => format!("{} from float {:e}", n, f64::from_bits(c.v[0] as u64)),
            5 => format!("{} from bytes {:02x?}", n, c.s[0]),
            _ => format!("{} from other kinds {}", n, c.v[0]),
        }
    }
    fn fixed(&self, shard: u64, shards: u64, th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..ntypes() as u32 {
            let t = cd(ty).ty();
            if t.bits == 16 {
                let step = if th { 1 } else { 7 };
                for x in (t.min()..=t.max()).step_by(step) {
                    if (x / step as i128).rem_euclid(shards as i128) as u64 == shard && !f(Case::new(ty, 0, &[x, -1])) {
                        return;
                    }
                }
            }
            if ty as u64 % shards == shard {
                for n in [i128::MIN, i128::MAX, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, 0, 1, -1] {
                    if !f(Case::new(ty, 3, &[n])) {
                        return;
                    }
                }
                for k in 0..1024 {
                    if !f(Case::new(ty, 6, &[k])) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            40_000_000
        } else {
            1_600_000
        }
    }
    fn rule(&self) -> String {
        "values of 15 types through JSON (text, reader, value, escaped, containers, map keys, flatten, untagged), bincode and CBOR and back; generated JSON documents, texts (JSON, every string deserializer, XML elements and attributes), integers of every width, floats, damaged bytes against the plain integer's reader, other kinds of things; non-trivial = non-zero value, or a document, text or byte string".into()
    }
}
