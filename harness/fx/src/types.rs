//! The 73 fixed-point types behind one object-safe interface that speaks raw `i128` bits.
use fixnum::ops::{Bounded, CheckedAdd, CheckedMul, CheckedSub, One, RoundMode, RoundingDiv, RoundingMul, Zero};
use fixnum::{typenum, ArithmeticError, FixedPoint};
use fxcore::gen::Ty;
use fxcore::wide::Mode;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    Overflow,
    DivisionByZero,
    DomainViolation,
    Other,
}
pub type R = Result<i128, E>;

pub fn err(e: ArithmeticError) -> E {
    match e {
        ArithmeticError::Overflow => E::Overflow,
        ArithmeticError::DivisionByZero => E::DivisionByZero,
        ArithmeticError::DomainViolation => E::DomainViolation,
        _ => E::Other,
    }
}
pub fn mode(m: Mode) -> RoundMode {
    match m {
        Mode::Floor => RoundMode::Floor,
        Mode::Nearest => RoundMode::Nearest,
        Mode::Ceil => RoundMode::Ceil,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Consts {
    pub zero: i128,
    pub one: i128,
    pub min: i128,
    pub max: i128,
    pub eps: i128,
    pub default: i128,
    pub prec: i32,
    pub size: usize,
    pub align: usize,
    pub int_size: usize,
    pub int_align: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Failure {
    Arithmetic(ArithmeticError),
    Convert(fixnum::ConvertError),
}

pub struct Order {
    pub cmp: std::cmp::Ordering,
    pub partial: Option<std::cmp::Ordering>,
    pub eq: bool,
    pub ne: bool,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    pub max: i128,
    pub min: i128,
    pub hash_a: u64,
    pub hash_b: u64,
}

/// Arguments are raw bits that the caller guarantees to be in range of the layout.
pub trait Fx: Send + Sync {
    fn ty(&self) -> Ty;
    fn name(&self) -> String;
    fn cadd(&self, a: i128, b: i128) -> R;
    fn csub(&self, a: i128, b: i128) -> R;
    fn cneg(&self, a: i128) -> R;
    fn abs(&self, a: i128) -> R;
    fn signum(&self, a: i128) -> i128;
    /// `fp * int`
    fn cmul(&self, a: i128, k: i128) -> R;
    /// `int * fp`
    fn cmul_rev(&self, k: i128, a: i128) -> R;
    fn sadd(&self, a: i128, b: i128) -> i128;
    fn ssub(&self, a: i128, b: i128) -> i128;
    fn smul(&self, a: i128, k: i128) -> i128;
    fn smul_rev(&self, k: i128, a: i128) -> i128;
    fn srmul(&self, a: i128, b: i128, m: Mode) -> i128;
    /// Saturating add, sub, product with an integer (from either side) and rounding product of a user's type that
    /// implements only the checked operations.
    fn user(&self, k: u32, a: i128, b: i128, m: Mode) -> i128;
    fn rmul(&self, a: i128, b: i128, m: Mode) -> R;
    fn rdiv(&self, a: i128, b: i128, m: Mode) -> R;
    /// `fp / int`
    fn rdiv_int(&self, a: i128, k: i128, m: Mode) -> R;
    /// `int / fp`
    fn int_rdiv(&self, k: i128, a: i128, m: Mode) -> R;
    fn recip(&self, a: i128, m: Mode) -> R;
    fn rsqrt(&self, a: i128, m: Mode) -> R;
    fn half_sum(&self, a: i128, b: i128, m: Mode) -> i128;
    fn integral(&self, a: i128, m: Mode) -> i128;
    fn floor(&self, a: i128) -> i128;
    fn ceil(&self, a: i128) -> i128;
    fn round(&self, a: i128) -> i128;
    fn rtz(&self, a: i128, p: i128) -> i128;
    fn npt(&self, a: i128) -> R;
    fn from_decimal(&self, m: i128, e: i32) -> Option<i128>;
    fn to_decimal(&self, a: i128, max: i32) -> (i128, i32);
    /// `k`: 0..12 selects the integer type; `x` are its bits.
    fn try_from_int(&self, k: usize, x: u128) -> Option<i128>;
    fn display(&self, a: i128) -> String;
    fn debug(&self, a: i128) -> String;
    /// With format flags; there are `SPECS`.
    fn flagged(&self, a: i128, k: usize) -> String;
    /// To a writer that fails after some bytes.
    fn limited(&self, a: i128, room: usize, debug: bool) -> bool;
    fn parse(&self, s: &str) -> Option<i128>;
    fn parse_exact(&self, s: &str) -> Option<i128>;
    fn from_f64(&self, x: f64) -> Option<i128>;
    fn to_f64(&self, a: i128) -> f64;
    fn order(&self, a: i128, b: i128) -> Order;
    fn sort(&self, v: &[i128]) -> Vec<i128>;
    fn bits_roundtrip(&self, a: i128) -> [i128; 4];
    /// The error of a failing call, if it fails: operation `op` on `a`, `b`, `s`.
    fn failure(&self, op: u32, a: i128, b: i128, s: &str) -> Option<Failure>;
    fn consts(&self) -> Consts;
}

pub const SPECS: usize = 16;
pub const INT_NAMES: [&str; 12] = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"];

pub struct W<L, P>(PhantomData<fn() -> (L, P)>);

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// A user's type: its saturating operations are those that the traits provide.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
struct User<T>(T);
/// A user's own error.
struct Failed;
impl<T: Zero> Zero for User<T> {
    const ZERO: Self = User(T::ZERO);
}
impl<T: Bounded> Bounded for User<T> {
    const MIN: Self = User(T::MIN);
    const MAX: Self = User(T::MAX);
}
impl<T: CheckedAdd<U>, U> CheckedAdd<User<U>> for User<T> {
    type Output = User<T::Output>;
    type Error = Failed;
    fn cadd(self, rhs: User<U>) -> Result<Self::Output, Failed> {
        self.0.cadd(rhs.0).map(User).map_err(|_| Failed)
    }
}
impl<T: CheckedSub<U>, U> CheckedSub<User<U>> for User<T> {
    type Output = User<T::Output>;
    type Error = Failed;
    fn csub(self, rhs: User<U>) -> Result<Self::Output, Failed> {
        self.0.csub(rhs.0).map(User).map_err(|_| Failed)
    }
}
impl<T: CheckedMul<U>, U> CheckedMul<User<U>> for User<T> {
    type Output = User<T::Output>;
    type Error = Failed;
    fn cmul(self, rhs: User<U>) -> Result<Self::Output, Failed> {
        self.0.cmul(rhs.0).map(User).map_err(|_| Failed)
    }
}
impl<T: RoundingMul<U>, U> RoundingMul<User<U>> for User<T> {
    type Output = User<T::Output>;
    type Error = Failed;
    fn rmul(self, rhs: User<U>, mode: RoundMode) -> Result<Self::Output, Failed> {
        self.0.rmul(rhs.0, mode).map(User).map_err(|_| Failed)
    }
}

macro_rules! imp {
    ($L:ident) => {
        impl<P: typenum::Unsigned + Ord + Hash> Fx for W<$L, P> {
            fn ty(&self) -> Ty {
                Ty {
                    bits: $L::BITS,
                    prec: P::U32,
                }
            }
            fn name(&self) -> String {
                format!("{}/{}", stringify!($L), P::U32)
            }
            fn cadd(&self, a: i128, b: i128) -> R {
                fp::<$L, P>(a as $L).cadd(fp(b as $L)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn csub(&self, a: i128, b: i128) -> R {
                fp::<$L, P>(a as $L).csub(fp(b as $L)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn cneg(&self, a: i128) -> R {
                fp::<$L, P>(a as $L).cneg().map(|x| x.into_bits() as i128).map_err(err)
            }
            fn abs(&self, a: i128) -> R {
                fp::<$L, P>(a as $L).abs().map(|x| x.into_bits() as i128).map_err(err)
            }
            fn signum(&self, a: i128) -> i128 {
                fp::<$L, P>(a as $L).signum() as i128
            }
            fn cmul(&self, a: i128, k: i128) -> R {
                fp::<$L, P>(a as $L).cmul(k as $L).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn cmul_rev(&self, k: i128, a: i128) -> R {
                (k as $L).cmul(fp::<$L, P>(a as $L)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn sadd(&self, a: i128, b: i128) -> i128 {
                fp::<$L, P>(a as $L).saturating_add(fp(b as $L)).into_bits() as i128
            }
            fn ssub(&self, a: i128, b: i128) -> i128 {
                fp::<$L, P>(a as $L).saturating_sub(fp(b as $L)).into_bits() as i128
            }
            fn smul(&self, a: i128, k: i128) -> i128 {
                CheckedMul::<$L>::saturating_mul(fp::<$L, P>(a as $L), k as $L).into_bits() as i128
            }
            fn smul_rev(&self, k: i128, a: i128) -> i128 {
                CheckedMul::<FixedPoint<$L, P>>::saturating_mul(k as $L, fp::<$L, P>(a as $L)).into_bits() as i128
            }
            fn srmul(&self, a: i128, b: i128, m: Mode) -> i128 {
                fp::<$L, P>(a as $L).saturating_rmul(fp(b as $L), mode(m)).into_bits() as i128
            }
            fn user(&self, k: u32, a: i128, b: i128, m: Mode) -> i128 {
                let (x, y) = (User(fp::<$L, P>(a as $L)), User(fp::<$L, P>(b as $L)));
                let r = match k {
                    0 => x.saturating_add(y),
                    1 => x.saturating_sub(y),
                    2 => x.saturating_mul(User(b as $L)),
                    3 => User(b as $L).saturating_mul(x),
                    _ => x.saturating_rmul(y, mode(m)),
                };
                r.0.into_bits() as i128
            }
            fn rmul(&self, a: i128, b: i128, m: Mode) -> R {
                fp::<$L, P>(a as $L)
                    .rmul(fp(b as $L), mode(m))
                    .map(|x| x.into_bits() as i128)
                    .map_err(err)
            }
            fn rdiv(&self, a: i128, b: i128, m: Mode) -> R {
                fp::<$L, P>(a as $L)
                    .rdiv(fp::<$L, P>(b as $L), mode(m))
                    .map(|x| x.into_bits() as i128)
                    .map_err(err)
            }
            fn rdiv_int(&self, a: i128, k: i128, m: Mode) -> R {
                fp::<$L, P>(a as $L).rdiv(k as $L, mode(m)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn int_rdiv(&self, k: i128, a: i128, m: Mode) -> R {
                (k as $L).rdiv(fp::<$L, P>(a as $L), mode(m)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn recip(&self, a: i128, m: Mode) -> R {
                fp::<$L, P>(a as $L).recip(mode(m)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn rsqrt(&self, a: i128, m: Mode) -> R {
                fp::<$L, P>(a as $L).rsqrt(mode(m)).map(|x| x.into_bits() as i128).map_err(err)
            }
            fn half_sum(&self, a: i128, b: i128, m: Mode) -> i128 {
                FixedPoint::<$L, P>::half_sum(fp(a as $L), fp(b as $L), mode(m)).into_bits() as i128
            }
            fn integral(&self, a: i128, m: Mode) -> i128 {
                fp::<$L, P>(a as $L).integral(mode(m)) as i128
            }
            fn floor(&self, a: i128) -> i128 {
                fp::<$L, P>(a as $L).floor().into_bits() as i128
            }
            fn ceil(&self, a: i128) -> i128 {
                fp::<$L, P>(a as $L).ceil().into_bits() as i128
            }
            fn round(&self, a: i128) -> i128 {
                fp::<$L, P>(a as $L).round().into_bits() as i128
            }
            fn rtz(&self, a: i128, p: i128) -> i128 {
                fp::<$L, P>(a as $L).round_towards_zero_by(fp(p as $L)).into_bits() as i128
            }
            fn npt(&self, a: i128) -> R {
                fp::<$L, P>(a as $L).next_power_of_ten().map(|x| x.into_bits() as i128).map_err(err)
            }
            fn from_decimal(&self, m: i128, e: i32) -> Option<i128> {
                FixedPoint::<$L, P>::from_decimal(m as $L, e).ok().map(|x| x.into_bits() as i128)
            }
            fn to_decimal(&self, a: i128, max: i32) -> (i128, i32) {
                let (m, e) = fp::<$L, P>(a as $L).to_decimal(max);
                (m as i128, e)
            }
            fn try_from_int(&self, k: usize, x: u128) -> Option<i128> {
                let r = match k {
                    0 => FixedPoint::<$L, P>::try_from(x as i8).ok(),
                    1 => FixedPoint::<$L, P>::try_from(x as u8).ok(),
                    2 => FixedPoint::<$L, P>::try_from(x as i16).ok(),
                    3 => FixedPoint::<$L, P>::try_from(x as u16).ok(),
                    4 => FixedPoint::<$L, P>::try_from(x as i32).ok(),
                    5 => FixedPoint::<$L, P>::try_from(x as u32).ok(),
                    6 => FixedPoint::<$L, P>::try_from(x as i64).ok(),
                    7 => FixedPoint::<$L, P>::try_from(x as u64).ok(),
                    8 => FixedPoint::<$L, P>::try_from(x as i128).ok(),
                    9 => FixedPoint::<$L, P>::try_from(x).ok(),
                    10 => FixedPoint::<$L, P>::try_from(x as isize).ok(),
                    _ => FixedPoint::<$L, P>::try_from(x as usize).ok(),
                };
                r.map(|x| x.into_bits() as i128)
            }
            fn display(&self, a: i128) -> String {
                format!("{}", fp::<$L, P>(a as $L))
            }
            fn debug(&self, a: i128) -> String {
                format!("{:?}", fp::<$L, P>(a as $L))
            }
            fn flagged(&self, a: i128, k: usize) -> String {
                let x = fp::<$L, P>(a as $L);
                match k {
                    0 => format!("{:.0}", x),
                    1 => format!("{:.1}", x),
                    2 => format!("{:.3}", x),
                    3 => format!("{:.50}", x),
                    4 => format!("{:6}", x),
                    5 => format!("{:<30}", x),
                    6 => format!("{:^60}", x),
                    7 => format!("{:*>45}", x),
                    8 => format!("{:+}", x),
                    9 => format!("{:08}", x),
                    10 => format!("{:+050.2}", x),
                    11 => format!("{:#}", x),
                    12 => format!("{:.2?}", x),
                    13 => format!("{:#?}", x),
                    14 => format!("{:<20.4?}", x),
                    _ => format!("{:x?}", x),
                }
            }
            fn limited(&self, a: i128, room: usize, debug: bool) -> bool {
                use std::fmt::Write;
                struct Limited(usize);
                impl Write for Limited {
                    fn write_str(&mut self, s: &str) -> std::fmt::Result {
                        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
                        Ok(())
                    }
                }
                let x = fp::<$L, P>(a as $L);
                if debug {
                    write!(Limited(room), "{:?}", x)
                } else {
                    write!(Limited(room), "{}", x)
                }
                .is_ok()
            }
            fn parse(&self, s: &str) -> Option<i128> {
                s.parse::<FixedPoint<$L, P>>().ok().map(|x| x.into_bits() as i128)
            }
            fn parse_exact(&self, s: &str) -> Option<i128> {
                FixedPoint::<$L, P>::from_str_exact(s).ok().map(|x| x.into_bits() as i128)
            }
            fn from_f64(&self, x: f64) -> Option<i128> {
                FixedPoint::<$L, P>::try_from(x).ok().map(|x| x.into_bits() as i128)
            }
            fn to_f64(&self, a: i128) -> f64 {
                f64::from(fp::<$L, P>(a as $L))
            }
            fn order(&self, a: i128, b: i128) -> Order {
                let (x, y) = (fp::<$L, P>(a as $L), fp::<$L, P>(b as $L));
                let hash = |v: FixedPoint<$L, P>| {
                    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
                    v.hash(&mut h);
                    h.finish()
                };
                Order {
                    cmp: x.cmp(&y),
                    partial: x.partial_cmp(&y),
                    eq: x == y,
                    ne: x != y,
                    lt: x < y,
                    le: x <= y,
                    gt: x > y,
                    ge: x >= y,
                    max: x.max(y).into_bits() as i128,
                    min: x.min(y).into_bits() as i128,
                    hash_a: hash(x),
                    hash_b: hash(y),
                }
            }
            fn sort(&self, v: &[i128]) -> Vec<i128> {
                let mut v: Vec<FixedPoint<$L, P>> = v.iter().map(|x| fp(*x as $L)).collect();
                v.sort();
                v.into_iter().map(|x| x.into_bits() as i128).collect()
            }
            fn bits_roundtrip(&self, a: i128) -> [i128; 4] {
                let x = fp::<$L, P>(a as $L);
                // `repr(transparent)` is documented, so the memory is that of the integer.
                let raw: $L = unsafe { std::mem::transmute_copy(&x) };
                [*x.as_bits() as i128, x.into_bits() as i128, x.clone().into_bits() as i128, raw as i128]
            }
            fn failure(&self, op: u32, a: i128, b: i128, s: &str) -> Option<Failure> {
                let (x, y) = (fp::<$L, P>(a as $L), fp::<$L, P>(b as $L));
                match op {
                    0 => x.cadd(y).err().map(Failure::Arithmetic),
                    1 => x.csub(y).err().map(Failure::Arithmetic),
                    2 => x.cmul(b as $L).err().map(Failure::Arithmetic),
                    3 => x.rmul(y, RoundMode::Nearest).err().map(Failure::Arithmetic),
                    4 => x.rdiv(y, RoundMode::Floor).err().map(Failure::Arithmetic),
                    5 => x.cneg().err().map(Failure::Arithmetic),
                    6 => x.abs().err().map(Failure::Arithmetic),
                    7 => x.recip(RoundMode::Ceil).err().map(Failure::Arithmetic),
                    8 => x.rsqrt(RoundMode::Nearest).err().map(Failure::Arithmetic),
                    9 => x.next_power_of_ten().err().map(Failure::Arithmetic),
                    10 => s.parse::<FixedPoint<$L, P>>().err().map(Failure::Convert),
                    11 => FixedPoint::<$L, P>::from_str_exact(s).err().map(Failure::Convert),
                    12 => FixedPoint::<$L, P>::from_decimal(a as $L, (b % 45) as i32).err().map(Failure::Convert),
                    13 => FixedPoint::<$L, P>::try_from(f64::from_bits(a as u64)).err().map(Failure::Convert),
                    14 => FixedPoint::<$L, P>::try_from(a).err().map(Failure::Convert),
                    15 => FixedPoint::<$L, P>::try_from(a as u128).err().map(Failure::Convert),
                    16 => FixedPoint::<$L, P>::try_from(a as i64).err().map(Failure::Convert),
                    17 => FixedPoint::<$L, P>::try_from(a as u64).err().map(Failure::Convert),
                    18 => (a as $L).rdiv(b as $L, RoundMode::Floor).err().map(Failure::Arithmetic),
                    _ => (a as $L).cmul(x).err().map(Failure::Arithmetic),
                }
            }
            fn consts(&self) -> Consts {
                type T<P> = FixedPoint<$L, P>;
                Consts {
                    zero: T::<P>::ZERO.into_bits() as i128,
                    one: T::<P>::ONE.into_bits() as i128,
                    min: T::<P>::MIN.into_bits() as i128,
                    max: T::<P>::MAX.into_bits() as i128,
                    eps: T::<P>::EPSILON.into_bits() as i128,
                    default: T::<P>::default().into_bits() as i128,
                    prec: T::<P>::PRECISION,
                    size: std::mem::size_of::<T<P>>(),
                    align: std::mem::align_of::<T<P>>(),
                    int_size: std::mem::size_of::<$L>(),
                    int_align: std::mem::align_of::<$L>(),
                }
            }
        }
    };
}

#[inline]
fn fp<L, P>(x: L) -> FixedPoint<L, P> {
    FixedPoint::from_bits(x)
}

#[cfg(feature = "i16")]
imp!(i16);
#[cfg(feature = "i32")]
imp!(i32);
#[cfg(feature = "i64")]
imp!(i64);
#[cfg(feature = "i128")]
imp!(i128);

#[macro_export]
macro_rules! table {
    ($($f:literal $L:ident: $($P:ident)*;)*) => {{
        let mut v: Vec<Box<dyn Fx>> = vec![];
        $(
            #[cfg(feature = $f)]
            v.extend([$(Box::new(W::<$L, typenum::$P>(PhantomData)) as Box<dyn Fx>,)*]);
        )*
        v
    }};
}

/// Every layout with every precision whose power of ten fits the layout.
#[cfg(feature = "full")]
pub fn table() -> Vec<Box<dyn Fx>> {
    table! {
        "i16" i16: U0 U1 U2 U3 U4;
        "i32" i32: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9;
        "i64" i64: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18;
        "i128" i128: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19
              U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38;
    }
}
/// Some of them, for builds in many configurations.
#[cfg(not(feature = "full"))]
pub fn table() -> Vec<Box<dyn Fx>> {
    table! {
        "i16" i16: U0 U1 U2 U3 U4;
        "i32" i32: U0 U1 U4 U8 U9;
        "i64" i64: U0 U1 U4 U9 U17 U18;
        "i128" i128: U0 U1 U9 U18 U19 U28 U37 U38;
    }
}

/// Primitive signed integers: the same traits.
pub trait Prim: Send + Sync {
    fn bits(&self) -> u32;
    fn cadd(&self, a: i128, b: i128) -> R;
    fn csub(&self, a: i128, b: i128) -> R;
    fn cmul(&self, a: i128, b: i128) -> R;
    fn sadd(&self, a: i128, b: i128) -> i128;
    fn ssub(&self, a: i128, b: i128) -> i128;
    fn smul(&self, a: i128, b: i128) -> i128;
    fn rdiv(&self, a: i128, b: i128, m: Mode) -> R;
    fn consts(&self) -> [i128; 4];
}
struct PrimW<L>(PhantomData<fn() -> L>);
macro_rules! prim {
    ($($L:ident)*) => {
        $(impl Prim for PrimW<$L> {
            fn bits(&self) -> u32 { $L::BITS }
            fn cadd(&self, a: i128, b: i128) -> R { (a as $L).cadd(b as $L).map(|x| x as i128).map_err(err) }
            fn csub(&self, a: i128, b: i128) -> R { (a as $L).csub(b as $L).map(|x| x as i128).map_err(err) }
            fn cmul(&self, a: i128, b: i128) -> R { (a as $L).cmul(b as $L).map(|x| x as i128).map_err(err) }
            fn sadd(&self, a: i128, b: i128) -> i128 { CheckedAdd::saturating_add(a as $L, b as $L) as i128 }
            fn ssub(&self, a: i128, b: i128) -> i128 { CheckedSub::saturating_sub(a as $L, b as $L) as i128 }
            fn smul(&self, a: i128, b: i128) -> i128 { CheckedMul::saturating_mul(a as $L, b as $L) as i128 }
            fn rdiv(&self, a: i128, b: i128, m: Mode) -> R { (a as $L).rdiv(b as $L, mode(m)).map(|x| x as i128).map_err(err) }
            fn consts(&self) -> [i128; 4] {
                [<$L as Zero>::ZERO as i128, <$L as One>::ONE as i128, <$L as Bounded>::MIN as i128, <$L as Bounded>::MAX as i128]
            }
        })*
        pub fn prims() -> Vec<Box<dyn Prim>> { vec![$(Box::new(PrimW::<$L>(PhantomData)) as Box<dyn Prim>,)*] }
    };
}
prim!(i8 i16 i32 i64 i128);
