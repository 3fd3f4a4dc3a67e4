#[macro_use]
pub mod types;
pub mod calls;
pub mod default;
pub mod scale;
pub mod schema;

use fxcore::case::Case;
use fxcore::engine::{Cx, Prop};
use fxcore::gen::Ty;
use std::marker::PhantomData;
use types::Num;

pub type Res = Result<(), String>;

/// One type under test, all its checks.
pub trait Cd: Send + Sync {
    fn ty(&self) -> Ty;
    fn name(&self) -> &'static str;
    fn default(&self, c: &Case, cx: &mut Cx) -> Res;
    fn scale(&self, c: &Case, cx: &mut Cx) -> Res;
    fn schema(&self, c: &Case, cx: &mut Cx) -> Res;
    fn calls(&self, c: &Case) -> Vec<i128>;
}
struct S<T>(PhantomData<fn() -> T>);
impl<T: Num> Cd for S<T> {
    fn ty(&self) -> Ty {
        T::TY
    }
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn default(&self, c: &Case, cx: &mut Cx) -> Res {
        default::check::<T>(c, cx)
    }
    fn scale(&self, c: &Case, cx: &mut Cx) -> Res {
        scale::check::<T>(c, cx)
    }
    fn schema(&self, c: &Case, cx: &mut Cx) -> Res {
        schema::check::<T>(c, cx)
    }
    fn calls(&self, c: &Case) -> Vec<i128> {
        calls::call::<T>(c)
    }
}

macro_rules! table {
    ($($m:ident $L:ident $P:ident;)*) => {
        vec![$(Box::new(S::<fixnum::FixedPoint<$L, fixnum::typenum::$P>>(PhantomData)) as Box<dyn Cd>,)*]
    };
}
pub fn tables() -> &'static Vec<Box<dyn Cd>> {
    static T: std::sync::OnceLock<Vec<Box<dyn Cd>>> = std::sync::OnceLock::new();
    T.get_or_init(|| each_type!(table))
}
pub fn ntypes() -> u64 {
    tables().len() as u64
}
pub fn cd(i: u32) -> &'static dyn Cd {
    &*tables()[i as usize]
}

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C17" => Box::new(default::Default_),
        "C19" => Box::new(scale::Scale),
        "C26" => Box::new(schema::Schema_),
        _ => return None,
    })
}

/// Shared oracles.
pub mod want {
    use super::types::Num;
    use fxcore::text::Decimal;
    use fxcore::wide::I;

    /// What reading a text with rounding gives.
    pub fn text<T: Num>(s: &str) -> Option<i128> {
        Decimal::read(s).and_then(|d| d.rounded(T::TY.prec)).filter(|x| T::TY.has(*x))
    }
    pub fn int<T: Num>(x: I) -> Option<i128> {
        if x.mag.bits() > 130 {
            return None;
        }
        x.mul(&I::from(T::TY.coef())).i128().filter(|x| T::TY.has(*x))
    }
    /// The conversion from floats is judged by another property; here it has to be the same.
    pub fn float<T: Num>(x: f64) -> Option<i128> {
        T::try_from(x).ok().map(|x| x.raw())
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}
