//! C21: operations declared by `impl_op!` against the same operations on the wrapped values.
use fixnum::ops::{Bounded, CheckedAdd, CheckedMul, CheckedSub, RoundMode, RoundingDiv, RoundingMul, Zero};
use fixnum::typenum::{U0, U18, U2, U38, U4, U9};
use fixnum::{ArithmeticError, FixedPoint};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::{Gen, Ty};

/// What a wrapper may contain.
pub trait Inner: Copy {
    const TY: Ty;
    const INT: bool;
    fn new(x: i128) -> Self;
    fn raw(self) -> i128;
}
macro_rules! inner_ints {
    ($($t:ident)*) => {
        $(impl Inner for $t {
            const TY: Ty = Ty { bits: $t::BITS, prec: 0 };
            const INT: bool = true;
            fn new(x: i128) -> Self { x as $t }
            fn raw(self) -> i128 { self as i128 }
        })*
    };
}
inner_ints!(i8 i16 i32 i64 i128);
macro_rules! inner_fps {
    ($($t:ident $L:ident $P:ident;)*) => {
        $(
            type $t = FixedPoint<$L, $P>;
            impl Inner for $t {
                const TY: Ty = Ty { bits: $L::BITS, prec: <$P as fixnum::typenum::Unsigned>::U32 };
                const INT: bool = false;
                fn new(x: i128) -> Self { Self::from_bits(x as $L) }
                fn raw(self) -> i128 { self.into_bits() as i128 }
            }
        )*
    };
}
inner_fps! { A i16 U2; B i32 U4; C i64 U9; D i128 U18; E i64 U0; F i128 U38; }

/// Result of an operation: the raw value or 1 (overflow), 2 (division by zero).
type Out = Result<i128, u8>;
fn out<T>(r: Result<T, ArithmeticError>, f: impl FnOnce(T) -> i128) -> Out {
    r.map(f).map_err(|e| match e {
        ArithmeticError::Overflow => 1,
        ArithmeticError::DivisionByZero => 2,
        _ => 3,
    })
}
type Fun = fn(i128, i128, RoundMode) -> (Out, Option<i128>);

pub struct Row {
    name: &'static str,
    l: Ty,
    r: Ty,
    /// The operation of the wrappers: checked and saturating.
    wrapped: Fun,
    /// The operation of the contents, widened by the harness.
    plain: Fun,
    /// Dividend (an integer) and the fixed-point type it has to fit.
    dividend: Option<Ty>,
}

macro_rules! wrapper {
    ($S:ident $t:ty) => {
        #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
        pub struct $S(pub $t);
        impl From<$t> for $S {
            fn from(x: $t) -> Self {
                $S(x)
            }
        }
        impl Zero for $S {
            const ZERO: Self = $S(<$t as Zero>::ZERO);
        }
        impl Bounded for $S {
            const MIN: Self = $S(<$t as Bounded>::MIN);
            const MAX: Self = $S(<$t as Bounded>::MAX);
        }
    };
}

/// How an operation is called on wrappers (`w`), and on plain values.
macro_rules! calls {
    (cadd $a:expr, $b:expr, $m:expr, $f:expr) => {
        (out($a.cadd($b), $f), Some($f($a.saturating_add($b))))
    };
    (csub $a:expr, $b:expr, $m:expr, $f:expr) => {
        (out($a.csub($b), $f), Some($f($a.saturating_sub($b))))
    };
    (cmul $a:expr, $b:expr, $m:expr, $f:expr) => {
        (out($a.cmul($b), $f), Some($f(CheckedMul::saturating_mul($a, $b))))
    };
    (rmul $a:expr, $b:expr, $m:expr, $f:expr) => {
        (out($a.rmul($b, $m), $f), Some($f(RoundingMul::saturating_rmul($a, $b, $m))))
    };
    (rdiv $a:expr, $b:expr, $m:expr, $f:expr) => {
        (out($a.rdiv($b, $m), $f), None)
    };
}

/// The plain operation; a dividend is converted to the type of the result.
macro_rules! plain {
    (rdiv $O:ty, $wl:ty, $wr:ty, $l:expr, $r:expr, $m:expr) => {{
        let (r, m) = (<$wr as Inner>::new($r), $m);
        match <$O>::try_from(<$wl as Inner>::new($l)) {
            Ok(l) => (out(l.rdiv(r, m), <$O as Inner>::raw), None),
            #[allow(unreachable_patterns)]
            Err(_) => (Err(1), None),
        }
    }};
    ($op:ident $O:ty, $wl:ty, $wr:ty, $l:expr, $r:expr, $m:expr) => {{
        let (l, r, _m) = (<$wl as Inner>::new($l), <$wr as Inner>::new($r), $m);
        calls!($op l, r, _m, <$O as Inner>::raw)
    }};
}

/// One declaration: `Lhs(l) [op] Rhs(r) = Res(o)`, the plain operation being on `wl` and `wr`.
macro_rules! row {
    ($v:ident; $op:ident $l:ty, $r:ty = $o:ty; $wl:ty, $wr:ty) => {{
        wrapper!(Lhs $l);
        wrapper!(Rhs $r);
        wrapper!(Res $o);
        fixnum::impl_op!(Lhs [$op] Rhs = Res);
        fn wrapped(l: i128, r: i128, _m: RoundMode) -> (Out, Option<i128>) {
            let (l, r) = (Lhs(Inner::new(l)), Rhs(Inner::new(r)));
            calls!($op l, r, _m, |x: Res| x.0.raw())
        }
        fn plain(l: i128, r: i128, m: RoundMode) -> (Out, Option<i128>) {
            plain!($op $o, $wl, $wr, l, r, m)
        }
        let dividend = if stringify!($op) == "rdiv" && <$l as Inner>::INT && !<$o as Inner>::INT { Some(<$o as Inner>::TY) } else { None };
        $v.push(Row {
            name: concat!(stringify!($l), " [", stringify!($op), "] ", stringify!($r), " = ", stringify!($o)),
            l: <$l as Inner>::TY,
            r: <$r as Inner>::TY,
            wrapped,
            plain,
            dividend,
        });
    }};
}

/// One type in all three places.
macro_rules! same {
    ($v:ident; $op:ident $l:ty) => {{
        wrapper!(Lhs $l);
        fixnum::impl_op!(Lhs [$op] Lhs = Lhs);
        fn wrapped(l: i128, r: i128, _m: RoundMode) -> (Out, Option<i128>) {
            let (l, r) = (Lhs(Inner::new(l)), Lhs(Inner::new(r)));
            calls!($op l, r, _m, |x: Lhs| x.0.raw())
        }
        fn plain(l: i128, r: i128, m: RoundMode) -> (Out, Option<i128>) {
            plain!($op $l, $l, $l, l, r, m)
        }
        $v.push(Row {
            name: concat!("one wrapper of ", stringify!($l), " [", stringify!($op), "]"),
            l: <$l as Inner>::TY,
            r: <$l as Inner>::TY,
            wrapped,
            plain,
            dividend: None,
        });
    }};
}

macro_rules! int_rows {
    ($v:ident; $($l:ident $r:ident = $o:ident;)*) => {
        $({
            fn add($v: &mut Vec<Row>) {
                row!($v; cadd $l, $r = $o; $o, $o);
                row!($v; csub $l, $r = $o; $o, $o);
                row!($v; cmul $l, $r = $o; $o, $o);
                row!($v; rdiv $l, $r = $o; $o, $o);
            }
            add(&mut $v);
        })*
    };
}
macro_rules! fp_rows {
    ($v:ident; $($f:ident $L:ident: $($i:ident)*, $($x:ident / $y:ident)*;)*) => {
        $({
            fn add($v: &mut Vec<Row>) {
                row!($v; cadd $f, $f = $f; $f, $f);
                row!($v; csub $f, $f = $f; $f, $f);
                row!($v; rmul $f, $f = $f; $f, $f);
                row!($v; rdiv $f, $f = $f; $f, $f);
                same!($v; cadd $f);
                same!($v; csub $f);
                same!($v; rmul $f);
                same!($v; rdiv $f);
                $(
                    row!($v; cmul $i, $f = $f; $L, $f);
                    row!($v; cmul $f, $i = $f; $f, $L);
                    row!($v; rdiv $f, $i = $f; $f, $L);
                    row!($v; rdiv $i, $f = $f; $L, $f);
                )*
                $(row!($v; rdiv $x, $y = $f; $L, $L);)*
            }
            add(&mut $v);
        })*
    };
}

fn rows() -> &'static Vec<Row> {
    static T: std::sync::OnceLock<Vec<Row>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        fp_rows! { v;
            A i16: i8 i16, i8/i8 i8/i16 i16/i8 i16/i16;
            B i32: i8 i16 i32, i8/i8 i16/i8 i32/i8 i8/i32 i16/i32 i32/i32;
            C i64: i8 i16 i32 i64, i32/i32 i64/i8 i8/i64 i64/i32 i16/i64 i64/i64;
            D i128: i8 i16 i32 i64 i128, i32/i32 i128/i8 i8/i128 i64/i128 i128/i64 i128/i128;
            E i64: i8 i16 i32 i64, i32/i32 i64/i16 i64/i64;
            F i128: i8 i32 i64 i128, i8/i8 i64/i32 i128/i64 i128/i128;
        }
        int_rows! { v;
            i8 i8 = i8;
            i16 i16 = i16; i8 i16 = i16; i16 i8 = i16;
            i32 i32 = i32; i8 i32 = i32; i32 i16 = i32; i8 i8 = i32;
            i64 i64 = i64; i32 i64 = i64; i64 i8 = i64; i32 i16 = i64;
            i128 i128 = i128; i64 i128 = i128; i128 i32 = i128; i16 i8 = i128; i64 i64 = i128;
        }
        v
    })
}

const MODES: [RoundMode; 3] = [RoundMode::Ceil, RoundMode::Nearest, RoundMode::Floor];

struct Wrap;
impl Prop for Wrap {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let k = (i % rows().len() as u64) as u32;
        let r = &rows()[k as usize];
        let x = if let (Some(o), true) = (r.dividend, g.bool()) {
            // what the result's type can just hold
            let b = if g.bool() { o.max() } else { o.min() } / o.coef();
            r.l.clamp(b.saturating_add(g.range(-2, 2) as i128))
        } else {
            r.l.val(g)
        };
        let y = match g.below(8) {
            // near the edge of the sum, difference or product
            0 => r.r.clamp(r.l.max().saturating_sub(x).saturating_add(g.range(-1, 1) as i128)),
            1 => r.r.clamp(r.l.min().saturating_sub(x).saturating_add(g.range(-1, 1) as i128)),
            2 if x != 0 => r.r.clamp(
                (if g.bool() { r.l.max() } else { r.l.min() })
                    .saturating_div(x)
                    .saturating_add(g.range(-1, 1) as i128),
            ),
            _ => r.r.val(g),
        };
        let m = g.below(3) as i128;
        Case::new(k, 0, &[x, y, m])
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Result<(), String> {
        let r = &rows()[c.ty as usize];
        let (x, y) = (c.v[0], c.v[1]);
        let m = MODES[c.v[2].rem_euclid(3) as usize];
        if !r.l.has(x) || !r.r.has(y) {
            return cx.skip();
        }
        let want = call(|| (r.plain)(x, y, m))?;
        let got = call(|| (r.wrapped)(x, y, m))?;
        cx.nontrivial_if(x != 0 && y != 0);
        cx.label(["ok", "overflow", "division by zero", "other error"][want.0.err().unwrap_or(0) as usize]);
        if got == want {
            return Ok(());
        }
        if let Some(o) = r.dividend {
            let fits = x.checked_mul(o.coef()).is_some_and(|x| o.has(x));
            // both errors are due
            if !fits && y == 0 && matches!(got.0, Err(1 | 2)) {
                return Ok(());
            }
        }
        Err(format!(
            "wrappers give {:?}, their contents {:?} (raw; Err 1 = Overflow, 2 = DivisionByZero; then saturating)",
            got, want
        ))
    }
    fn show(&self, c: &Case) -> String {
        let m = MODES[c.v[2].rem_euclid(3) as usize];
        format!("{} on raw {} and {}, mode {:?}", rows()[c.ty as usize].name, c.v[0], c.v[1], m)
    }
    fn fixed(&self, shard: u64, shards: u64, th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for (k, r) in rows().iter().enumerate() {
            if k as u64 % shards != shard {
                continue;
            }
            let edge = |t: Ty, all: bool| -> Vec<i128> {
                if t.bits == 8 || all && t.bits == 16 {
                    (t.min()..=t.max()).collect()
                } else {
                    [
                        t.min(),
                        t.min() + 1,
                        t.min() / 2,
                        -t.coef(),
                        -1,
                        0,
                        1,
                        t.coef(),
                        t.max() / 2,
                        t.max() - 1,
                        t.max(),
                    ]
                    .to_vec()
                }
            };
            for &x in &edge(r.l, th && r.r.bits == 8) {
                for &y in &edge(r.r, th && r.l.bits == 8) {
                    for m in 0..3 {
                        if !f(Case::new(k as u32, 0, &[x, y, m])) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_500_000_000
        } else {
            60_000_000
        }
    }
    fn rule(&self) -> String {
        format!(
            "{} declarations of impl_op! (6 fixed-point types, all integer widths, one or three wrapper types) on values of both operands, edges of the result and all pairs of 8-bit operands; non-trivial = both operands non-zero",
            rows().len()
        )
    }
}

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    match id {
        "C21" => Some(Box::new(Wrap)),
        _ => None,
    }
}
