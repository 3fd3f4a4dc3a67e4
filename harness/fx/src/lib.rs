pub mod arith;
pub mod conv;
pub mod hist;
pub mod laws;
pub mod meta;
pub mod strs;
pub mod sweep;
pub mod types;

use fxcore::engine::Prop;
use fxcore::gen::{Gen, Ty};
use fxcore::wide::{Mode, MODES};
use std::sync::OnceLock;
use types::{Fx, Prim, E, R};

pub struct Tables {
    pub fx: Vec<Box<dyn Fx>>,
    pub prim: Vec<Box<dyn Prim>>,
}
pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| Tables {
        fx: types::table(),
        prim: types::prims(),
    })
}
pub fn fx(i: u32) -> &'static dyn Fx {
    &*tables().fx[i as usize]
}
pub fn prim(i: u32) -> &'static dyn Prim {
    &*tables().prim[i as usize]
}
pub fn nfx() -> u64 {
    tables().fx.len() as u64
}
/// Cycles over all types so that every precision of every layout gets its share.
pub fn pick_ty(g: &mut Gen, i: u64) -> (u32, Ty) {
    let k = if g.chance(1, 4) { g.below(nfx()) } else { i % nfx() } as u32;
    (k, fx(k).ty())
}
pub fn mode_of(x: i128) -> Mode {
    MODES[x.rem_euclid(3) as usize]
}
pub fn show_ty(i: u32) -> String {
    fx(i).name()
}
pub fn show_r(r: &R) -> String {
    match r {
        Ok(x) => format!("Ok(raw {})", x),
        Err(e) => format!("Err({:?})", e),
    }
}
pub const OVF: E = E::Overflow;

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(arith::Checked),
        "C02" => Box::new(arith::Saturating),
        "C03" => Box::new(arith::Rmul),
        "C04" => Box::new(arith::Rdiv),
        "C05" => Box::new(arith::RdivInt),
        "C06" => Box::new(arith::Rsqrt),
        "C07" => Box::new(arith::HalfSum),
        "C08" => Box::new(arith::Integral),
        "C09" => Box::new(arith::Coarse),
        "C10" => Box::new(conv::Decimal),
        "C11" => Box::new(conv::Ints),
        "C12" => Box::new(strs::Display),
        "C13" => Box::new(strs::Parse { exact: true }),
        "C14" => Box::new(strs::Parse { exact: false }),
        "C15" => Box::new(conv::FromF64),
        "C16" => Box::new(conv::ToF64),
        "C24" => Box::new(meta::Meta),
        "C25" => Box::new(hist::Hist),
        "C27" => Box::new(laws::Laws),
        "C29" => Box::new(meta::Errors),
        "C28" => Box::new(laws::Types),
        _ => return None,
    })
}
