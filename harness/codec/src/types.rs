//! The fixed-point types under test and what the checks need of them.
use fxcore::gen::Ty;
use parity_scale_codec::{Compact, Decode, Encode, Input};
use schemars::JsonSchema;
use serde::{de::DeserializeOwned, Serialize};

pub trait Num:
    Copy + Ord + Serialize + DeserializeOwned + std::str::FromStr + TryFrom<f64> + Into<f64> + PartialEq + std::fmt::Debug + JsonSchema + Encode + Decode + 'static
{
    const TY: Ty;
    const NAME: &'static str;
    type Layout: Serialize + DeserializeOwned + Copy + PartialEq + std::fmt::Debug;
    fn new(raw: i128) -> Self;
    fn raw(self) -> i128;
    fn layout(raw: i128) -> Self::Layout;
    fn layout_raw(x: Self::Layout) -> i128;
    fn compact(self) -> Vec<u8>;
    fn compact_ref(&self) -> Vec<u8>;
    fn from_compact<I: Input>(b: &mut I) -> Option<Self>;
    /// The codec of the unsigned integer itself.
    fn plain_compact<I: Input>(b: &mut I) -> Option<i128>;
}

macro_rules! num {
    ($($T:ty, $L:ident $P:ident;)*) => {
        $(impl Num for $T {
            const TY: Ty = Ty { bits: $L::BITS, prec: <fixnum::typenum::$P as fixnum::typenum::Unsigned>::U32 };
            const NAME: &'static str = concat!(stringify!($L), "/", stringify!($P));
            type Layout = $L;
            fn new(raw: i128) -> Self { Self::from_bits(raw as $L) }
            fn raw(self) -> i128 { self.into_bits() as i128 }
            fn layout(raw: i128) -> $L { raw as $L }
            fn layout_raw(x: $L) -> i128 { x as i128 }
            fn compact(self) -> Vec<u8> { Compact(self).encode() }
            fn compact_ref(&self) -> Vec<u8> {
                use parity_scale_codec::{CompactRef};
                CompactRef(self).encode()
            }
            fn from_compact<I: Input>(b: &mut I) -> Option<Self> { Compact::<Self>::decode(b).ok().map(Self::from) }
            fn plain_compact<I: Input>(b: &mut I) -> Option<i128> {
                Compact::<<$T as parity_scale_codec::CompactAs>::As>::decode(b).ok().map(|x| x.0 as $L as i128)
            }
        })*
    };
}

/// The table of types, once.
#[macro_export]
macro_rules! each_type {
    ($cb:ident) => {
        $cb! {
            m0 i16 U0; m1 i16 U2; m2 i16 U4;
            m3 i32 U0; m4 i32 U4; m5 i32 U9;
            m6 i64 U0; m7 i64 U1; m8 i64 U9; m9 i64 U18;
            m10 i128 U0; m11 i128 U9; m12 i128 U18; m13 i128 U28; m14 i128 U38;
        }
    };
}

macro_rules! nums {
    ($($m:ident $L:ident $P:ident;)*) => {
        num! { $(fixnum::FixedPoint<$L, fixnum::typenum::$P>, $L $P;)* }
    };
}
each_type!(nums);
