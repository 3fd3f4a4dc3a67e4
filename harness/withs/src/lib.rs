//! C18: the modules for `serde(with = "...")`.
use codec::default::{cbor, damage, document, uncbor, Flat};
use codec::types::Num;
use codec::{same, want, Res};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{float, Gen, Ty};
use fxcore::text::{canonical, decimal};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::Value;

pub struct With_;

/// The structure with a plain field, also read by a function: then a missing option is an error.
#[derive(Serialize, Deserialize)]
pub struct Mirror<X> {
    #[serde(deserialize_with = "ask", bound(deserialize = "X: Deserialize<'de>"))]
    pub v: X,
}
fn ask<'de, X: Deserialize<'de>, D: Deserializer<'de>>(d: D) -> Result<X, D::Error> {
    X::deserialize(d)
}

/// A structure with one annotated field.
pub trait Annotated<T: Num>: Serialize + DeserializeOwned {
    const NAME: &'static str;
    /// The same field of a plain type.
    type Plain: Plain<T>;
    fn make(x: Option<i128>) -> Self;
    fn get(&self) -> Option<i128>;
}

/// What the field is written as.
pub trait Plain<T: Num>: Serialize + DeserializeOwned + Sized {
    /// Another way to ask the reader for the same thing.
    type Twin: DeserializeOwned + Into<Self>;
    const OPTION: bool = false;
    const EXACT: bool = true;
    fn make(x: Option<i128>) -> Self;
    /// The number that it denotes; the outer level is about errors.
    fn number(&self) -> Option<Option<i128>>;
}

/// A string that is asked for as `str`.
pub struct Transient(String);
impl<'de> Deserialize<'de> for Transient {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Transient;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("string")
            }
            fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<Transient, E> {
                Ok(Transient(s.to_string()))
            }
        }
        d.deserialize_str(V)
    }
}
impl From<Transient> for String {
    fn from(t: Transient) -> String {
        t.0
    }
}
#[derive(Deserialize)]
#[serde(transparent)]
pub struct OptTransient(Option<Transient>);
impl From<OptTransient> for Option<String> {
    fn from(t: OptTransient) -> Option<String> {
        t.0.map(|t| t.0)
    }
}

pub struct Repr<L>(std::marker::PhantomData<L>);
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct PRepr<L>(L);
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct PReprOpt<L>(Option<L>);
impl<T: Num> Plain<T> for PRepr<T::Layout> {
    type Twin = Self;
    fn make(x: Option<i128>) -> Self {
        PRepr(T::layout(x.unwrap()))
    }
    fn number(&self) -> Option<Option<i128>> {
        Some(Some(T::layout_raw(self.0)))
    }
}
impl<T: Num> Plain<T> for PReprOpt<T::Layout> {
    type Twin = Self;
    const OPTION: bool = true;
    fn make(x: Option<i128>) -> Self {
        PReprOpt(x.map(T::layout))
    }
    fn number(&self) -> Option<Option<i128>> {
        Some(self.0.map(T::layout_raw))
    }
}
impl<T: Num> Plain<T> for String {
    type Twin = Transient;
    fn make(x: Option<i128>) -> Self {
        canonical(x.unwrap(), T::TY.prec)
    }
    fn number(&self) -> Option<Option<i128>> {
        want::text::<T>(self).map(Some)
    }
}
impl<T: Num> Plain<T> for Option<String> {
    type Twin = OptTransient;
    const OPTION: bool = true;
    fn make(x: Option<i128>) -> Self {
        x.map(|x| canonical(x, T::TY.prec))
    }
    fn number(&self) -> Option<Option<i128>> {
        match self {
            None => Some(None),
            Some(s) => want::text::<T>(s).map(Some),
        }
    }
}
impl<T: Num> Plain<T> for f64 {
    type Twin = f64;
    const EXACT: bool = false;
    fn make(x: Option<i128>) -> Self {
        T::new(x.unwrap()).into()
    }
    fn number(&self) -> Option<Option<i128>> {
        want::float::<T>(*self).map(Some)
    }
}
impl<T: Num> Plain<T> for Option<f64> {
    type Twin = Option<f64>;
    const OPTION: bool = true;
    const EXACT: bool = false;
    fn make(x: Option<i128>) -> Self {
        x.map(|x| T::new(x).into())
    }
    fn number(&self) -> Option<Option<i128>> {
        match self {
            None => Some(None),
            Some(x) => want::float::<T>(*x).map(Some),
        }
    }
}

trait With {
    fn with(c: &Case, cx: &mut Cx) -> Res;
}

type Got = Option<Option<i128>>;

/// Reads the annotated and the plain structure; what the former gives and has to give.
/// `None` when the two ways of asking for a string differ already.
fn pair<T: Num, A: Annotated<T>>(a: Option<A>, p: Option<Mirror<A::Plain>>, q: Option<Mirror<<A::Plain as Plain<T>>::Twin>>) -> Option<(Got, Got)> {
    let p = p.map(|p| p.v.number());
    let q = q.map(|q| Into::<A::Plain>::into(q.v).number());
    (p == q).then_some((a.map(|a| a.get()), p.flatten()))
}

fn differ<T: Num, A: Annotated<T>>(how: &str, x: Option<(Got, Got)>, cx: &mut Cx) -> Res {
    match x {
        Some((got, want)) => {
            cx.label(if want.is_some() { "read ok" } else { "read error" });
            same(&format!("{} {}", A::NAME, how), got, want)
        }
        None => {
            cx.label("readers of strings differ");
            Ok(())
        }
    }
}

fn readers<T: Num, A: Annotated<T>>(j: &[u8], cx: &mut Cx) -> Res {
    type Tw<T, A> = <<A as Annotated<T>>::Plain as Plain<T>>::Twin;
    let x = call(|| serde_json::from_slice::<A>(j).ok())?;
    differ::<T, A>("from JSON", pair::<T, A>(x, serde_json::from_slice(j).ok(), serde_json::from_slice(j).ok()), cx)?;
    let x = call(|| serde_json::from_reader::<_, A>(j).ok())?;
    differ::<T, A>(
        "from a JSON reader",
        pair::<T, A>(x, serde_json::from_reader(j).ok(), serde_json::from_reader(j).ok()),
        cx,
    )?;
    let x = call(|| serde_json::from_slice::<Flat<A>>(j).ok().map(|x| x.inner))?;
    let p = serde_json::from_slice::<Flat<Mirror<A::Plain>>>(j).ok().map(|x| x.inner);
    let q = serde_json::from_slice::<Flat<Mirror<Tw<T, A>>>>(j).ok().map(|x| x.inner);
    differ::<T, A>("flattened from JSON", pair::<T, A>(x, p, q), cx)?;
    if let Ok(v) = serde_json::from_slice::<Value>(j) {
        let x = call(|| serde_json::from_value::<A>(v.clone()).ok())?;
        differ::<T, A>(
            "from a JSON value",
            pair::<T, A>(x, serde_json::from_value(v.clone()).ok(), serde_json::from_value(v.clone()).ok()),
            cx,
        )?;
        let x = call(|| A::deserialize(&v).ok())?;
        differ::<T, A>(
            "from a borrowed JSON value",
            pair::<T, A>(x, Mirror::deserialize(&v).ok(), Mirror::deserialize(&v).ok()),
            cx,
        )?;
    }
    Ok(())
}

/// bincode from a reader; limited, because it allocates whatever length it reads.
fn stream<X: DeserializeOwned>(b: &[u8]) -> Option<X> {
    use bincode::Options;
    let o = bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 12);
    o.deserialize_from(b).ok()
}

fn binary<T: Num, A: Annotated<T>>(b: &[u8], cx: &mut Cx) -> Res {
    let x = call(|| bincode::deserialize::<A>(b).ok())?;
    differ::<T, A>("from bincode", pair::<T, A>(x, bincode::deserialize(b).ok(), bincode::deserialize(b).ok()), cx)?;
    let x = call(|| stream::<A>(b))?;
    differ::<T, A>("from a bincode reader", pair::<T, A>(x, stream(b), stream(b)), cx)?;
    let x = call(|| uncbor::<A>(b).0)?;
    differ::<T, A>("from CBOR", pair::<T, A>(x, uncbor(b).0, uncbor(b).0), cx)
}

pub fn field<T: Num, A: Annotated<T>>(c: &Case, cx: &mut Cx) -> Res {
    let t = T::TY;
    match c.op {
        0 => {
            let x = if c.v[1] != 0 && A::Plain::OPTION { None } else { Some(c.v[0]) };
            let a = A::make(x);
            let p = Mirror {
                v: <A::Plain as Plain<T>>::make(x),
            };
            let j = call(|| serde_json::to_string(&a).map_err(|e| e.to_string()))??;
            same(&format!("{} JSON", A::NAME), &j, &serde_json::to_string(&p).unwrap())?;
            let v = call(|| serde_json::to_value(&a).ok())?;
            same(&format!("{} JSON value", A::NAME), &v, &serde_json::to_value(&p).ok())?;
            let b = call(|| bincode::serialize(&a).map_err(|e| e.to_string()))??;
            same(&format!("{} bincode", A::NAME), &b, &bincode::serialize(&p).unwrap())?;
            let cb = call(|| cbor(&a))??;
            same(&format!("{} CBOR", A::NAME), &cb, &cbor(&p)?)?;
            let exact = A::Plain::EXACT || x.is_none_or(|x| x.unsigned_abs() < 10u128.pow(15));
            if exact {
                cx.label("exact round trip");
                if A::Plain::EXACT {
                    same(
                        &format!("{} JSON back", A::NAME),
                        call(|| serde_json::from_str::<A>(&j).ok().map(|a| a.get()))?,
                        Some(x),
                    )?;
                }
                if let Some(v) = v {
                    same(
                        &format!("{} JSON value back", A::NAME),
                        call(|| serde_json::from_value::<A>(v).ok().map(|a| a.get()))?,
                        Some(x),
                    )?;
                }
                same(
                    &format!("{} bincode back", A::NAME),
                    call(|| bincode::deserialize::<A>(&b).ok().map(|a| a.get()))?,
                    Some(x),
                )?;
                same(&format!("{} CBOR back", A::NAME), call(|| uncbor::<A>(&cb).0.map(|a| a.get()))?, Some(x))?;
            }
            readers::<T, A>(j.as_bytes(), cx)?;
            binary::<T, A>(&b, cx)?;
            binary::<T, A>(&cb, cx)
        }
        1 => readers::<T, A>(&c.s[0], cx),
        _ => {
            let _ = t;
            binary::<T, A>(&c.s[0], cx)
        }
    }
}

macro_rules! structures {
    ($T:ty, $N:ident; $($S:ident $how:literal $V:ty, $P:ty, $make:expr, $get:expr;)*) => {
        $(
            #[derive(Serialize, Deserialize)]
            pub struct $S {
                #[serde(with = $how)]
                v: $V,
            }
            impl Annotated<$T> for $S {
                const NAME: &'static str = concat!(stringify!($S));
                type Plain = $P;
                fn make(x: Option<i128>) -> Self {
                    $S { v: $make(x) }
                }
                fn get(&self) -> Option<i128> {
                    $get(&self.v)
                }
            }
        )*
        impl With for $T {
            fn with(c: &Case, cx: &mut Cx) -> Res {
                if c.op == 0 && !<$T as Num>::TY.has(c.v[0]) {
                    return cx.skip();
                }
                cx.nontrivial_if(c.op != 0 || c.v[0] != 0);
                $(field::<$T, $S>(c, cx)?;)*
                Ok(())
            }
        }
    };
}

macro_rules! with {
    ($($m:ident $L:ident $P:ident;)*) => {
        $(mod $m {
            use super::*;
            type F = fixnum::FixedPoint<$L, fixnum::typenum::$P>;
            #[derive(Clone)]
            pub struct W(F);
            impl From<F> for W {
                fn from(x: F) -> W {
                    W(x)
                }
            }
            impl From<W> for F {
                fn from(x: W) -> F {
                    x.0
                }
            }
            fn f(x: Option<i128>) -> F {
                F::new(x.unwrap())
            }
            fn w(x: Option<i128>) -> W {
                W(f(x))
            }
            fn of(x: Option<i128>) -> Option<F> {
                x.map(F::new)
            }
            fn ow(x: Option<i128>) -> Option<W> {
                x.map(|x| W(F::new(x)))
            }
            fn gf(x: &F) -> Option<i128> {
                Some(x.raw())
            }
            fn gw(x: &W) -> Option<i128> {
                Some(x.0.raw())
            }
            fn gof(x: &Option<F>) -> Option<i128> {
                x.map(|x| x.raw())
            }
            fn gow(x: &Option<W>) -> Option<i128> {
                x.as_ref().map(|x| x.0.raw())
            }
            structures! { F, $m;
                Repr "fixnum::serde::repr" F, PRepr<$L>, f, gf;
                Str "fixnum::serde::str" F, String, f, gf;
                Float "fixnum::serde::float" F, f64, f, gf;
                ReprOption "fixnum::serde::repr_option" Option<F>, PReprOpt<$L>, of, gof;
                StrOption "fixnum::serde::str_option" Option<F>, Option<String>, of, gof;
                FloatOption "fixnum::serde::float_option" Option<F>, Option<f64>, of, gof;
                ReprOfWrapper "fixnum::serde::repr" W, PRepr<$L>, w, gw;
                StrOfWrapper "fixnum::serde::str" W, String, w, gw;
                FloatOfWrapper "fixnum::serde::float" W, f64, w, gw;
                ReprOptionOfWrapper "fixnum::serde::repr_option" Option<W>, PReprOpt<$L>, ow, gow;
                StrOptionOfWrapper "fixnum::serde::str_option" Option<W>, Option<String>, ow, gow;
                FloatOptionOfWrapper "fixnum::serde::float_option" Option<W>, Option<f64>, ow, gow;
            }
        })*
    };
}
macro_rules! some_types {
    ($cb:ident) => {
        $cb! {
            m0 i16 U2; m1 i32 U0; m2 i32 U9; m3 i64 U1; m4 i64 U9; m5 i64 U18; m6 i128 U18; m7 i128 U38;
        }
    };
}
some_types!(with);

struct One {
    ty: Ty,
    name: &'static str,
    with: fn(&Case, &mut Cx) -> Res,
}
macro_rules! table {
    ($($m:ident $L:ident $P:ident;)*) => {
        &[$(One {
            ty: <fixnum::FixedPoint<$L, fixnum::typenum::$P> as Num>::TY,
            name: <fixnum::FixedPoint<$L, fixnum::typenum::$P> as Num>::NAME,
            with: <fixnum::FixedPoint<$L, fixnum::typenum::$P> as With>::with,
        },)*]
    };
}
static TABLE: &[One] = some_types!(table);
fn cd(i: u32) -> &'static One {
    &TABLE[i as usize]
}
fn ntypes() -> u64 {
    TABLE.len() as u64
}

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    match id {
        "C18" => Some(Box::new(With_)),
        _ => None,
    }
}

impl Prop for With_ {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let ty = (i % ntypes()) as u32;
        let t = cd(ty).ty;
        match g.below(6) {
            0..=2 => {
                let x = if g.chance(1, 3) { t.clamp(g.signed(49)) } else { t.val(g) };
                let none = g.chance(1, 20);
                Case::new(ty, 0, &[x, none as i128])
            }
            3 | 4 => {
                let d = document(g, t);
                let s = match g.below(20) {
                    0 => d,
                    1 => "{}".into(),
                    2 => format!("[{}]", d),
                    3 => format!("{{\"v\":{0},\"v\":{0}}}", d),
                    4 => format!("{{\"w\":{0},\"v\":{0}}}", d),
                    _ => format!("{{\"v\":{}}}", d),
                };
                Case::text(ty, 1, s.into_bytes())
            }
            _ => {
                let x = t.val(g);
                let none = g.chance(1, 10);
                macro_rules! enc {
                    ($x:expr) => {
                        match g.below(4) {
                            0 => cbor(&Mirror { v: $x }).unwrap(),
                            1 => cbor(&Mirror { v: Some($x) }).unwrap(),
                            2 => bincode::serialize(&Mirror { v: $x }).unwrap(),
                            _ => bincode::serialize(&Mirror {
                                v: if none { None } else { Some($x) },
                            })
                            .unwrap(),
                        }
                    };
                }
                let mut b = match g.below(5) {
                    0 => enc!(x),
                    1 => {
                        let b = bincode::serialize(&Mirror { v: x }).unwrap();
                        b[..(t.bits / 8) as usize].to_vec()
                    }
                    2 => {
                        let s = decimal(g, t, false);
                        enc!(&s[..])
                    }
                    3 => {
                        let y = float(g, t);
                        enc!(y)
                    }
                    _ => cbor(&Mirror { v: None::<u8> }).unwrap(),
                };
                damage(g, &mut b);
                Case::text(ty, 2, b)
            }
        }
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        (cd(c.ty).with)(c, cx)
    }
    fn show(&self, c: &Case) -> String {
        let n = cd(c.ty).name;
        match c.op {
            0 if c.v[1] != 0 => format!("{} raw {} (options: None)", n, c.v[0]),
            0 => format!("{} raw {}", n, c.v[0]),
            1 => format!("{} fields from JSON {}", n, String::from_utf8_lossy(&c.s[0])),
            _ => format!("{} fields from bytes {:02x?}", n, c.s[0]),
        }
    }
    fn fixed(&self, shard: u64, shards: u64, th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..ntypes() as u32 {
            let t = cd(ty).ty;
            if t.bits == 16 {
                let step = if th { 1 } else { 13 };
                for x in (t.min()..=t.max()).step_by(step) {
                    if (x / step as i128).rem_euclid(shards as i128) as u64 == shard && !f(Case::new(ty, 0, &[x, 0])) {
                        return;
                    }
                }
            }
            if ty as u64 % shards == shard {
                for x in [0, 1, -1, t.max(), t.min(), t.coef()] {
                    if !f(Case::new(ty, 0, &[x, 0])) || !f(Case::new(ty, 0, &[x, 1])) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            20_000_000
        } else {
            600_000
        }
    }
    fn rule(&self) -> String {
        "twelve structures per type (six modules on the number and on a wrapper), 8 types: written like the same structure of a plain integer, string or f64 in JSON, JSON values, bincode and CBOR; every reading of values, generated documents and damaged bytes compared with the plain structure's; non-trivial = non-zero value, document or bytes".into()
    }
}
