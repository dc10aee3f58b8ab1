//! Formats: the eight shipped ones, and small ones declared through the public `Semantics` trait.

use model::{Fmt, Rm};
use rustc_apfloat::ieee::{self, IeeeFloat, NonfiniteBehavior, Semantics};
use rustc_apfloat::{Float, Round, Status};

/// An implementation type together with the model's format.
pub trait Sub: Copy + Send + Sync + 'static {
    type F: Float + Send + Sync + std::fmt::Debug + 'static;
    const M: Fmt;
}

macro_rules! subs {
    ($($name:ident: $f:ty = $m:expr;)*) => {
        $(
            #[derive(Copy, Clone)]
            pub struct $name;
            impl Sub for $name {
                type F = $f;
                const M: Fmt = $m;
            }
        )*
    };
}
macro_rules! tiny {
    ($($name:ident, $sem:ident: $bits:tt : $exp:tt $(=> $nf:ident)?;)*) => {
        $(
            pub struct $sem;
            impl Semantics for $sem {
                const BITS: usize = $bits;
                const EXP_BITS: usize = $exp;
                $(const NONFINITE_BEHAVIOR: NonfiniteBehavior = NonfiniteBehavior::$nf;)?
            }
            #[derive(Copy, Clone)]
            pub struct $name;
            impl Sub for $name {
                type F = IeeeFloat<$sem>;
                const M: Fmt = tiny!(@m $name $bits $exp $($nf)?);
            }
        )*
    };
    (@m $name:ident $bits:tt $exp:tt NanOnly) => { model::nanonly(stringify!($name), $bits, $exp) };
    (@m $name:ident $bits:tt $exp:tt) => { model::ieee(stringify!($name), $bits, $exp) };
}

subs! {
    Half: ieee::Half = model::HALF;
    BFloat: ieee::BFloat = model::BFLOAT;
    Single: ieee::Single = model::SINGLE;
    Double: ieee::Double = model::DOUBLE;
    Quad: ieee::Quad = model::QUAD;
    E5M2: ieee::Float8E5M2 = model::E5M2;
    E4M3FN: ieee::Float8E4M3FN = model::E4M3FN;
    X87: ieee::X87DoubleExtended = model::X87;
}
tiny! {
    // name, semantics: total bits : exponent bits
    T6E3, T6E3S: 6:3;
    T7E3, T7E3S: 7:3;
    T7E4, T7E4S: 7:4;
    T8E3, T8E3S: 8:3;
    T8E4, T8E4S: 8:4;
    T9E4, T9E4S: 9:4;
    T10E4, T10E4S: 10:4;
    T10E5, T10E5S: 10:5;
    T11E5, T11E5S: 11:5;
    T12E5, T12E5S: 12:5;
    T12E6, T12E6S: 12:6;
    N6E3, N6E3S: 6:3 => NanOnly;
    N7E3, N7E3S: 7:3 => NanOnly;
    N7E4, N7E4S: 7:4 => NanOnly;
    N8E3, N8E3S: 8:3 => NanOnly;
    N9E4, N9E4S: 9:4 => NanOnly;
    N10E5, N10E5S: 10:5 => NanOnly;
}

pub const fn rnd(r: Rm) -> Round {
    match r {
        Rm::Ne => Round::NearestTiesToEven,
        Rm::Up => Round::TowardPositive,
        Rm::Down => Round::TowardNegative,
        Rm::Zero => Round::TowardZero,
        Rm::Na => Round::NearestTiesToAway,
    }
}
/// Status as the model's bit set.
#[inline]
pub fn st(s: Status) -> u8 {
    let mut r = 0;
    for (f, b) in [
        (Status::INVALID_OP, model::INVALID),
        (Status::DIV_BY_ZERO, model::DIVZERO),
        (Status::OVERFLOW, model::OVERFLOW),
        (Status::UNDERFLOW, model::UNDERFLOW),
        (Status::INEXACT, model::INEXACT),
    ] {
        if s.contains(f) {
            r |= b;
        }
    }
    r
}
pub fn show_st(s: u8) -> String {
    let mut v = vec![];
    for (n, b) in [("INVALID_OP", 1), ("DIV_BY_ZERO", 2), ("OVERFLOW", 4), ("UNDERFLOW", 8), ("INEXACT", 16)] {
        if s & b != 0 {
            v.push(n);
        }
    }
    if v.is_empty() {
        "OK".into()
    } else {
        v.join("|")
    }
}

/// Do the bits denote the model value? NaNs match any NaN when `nan_any`.
#[inline]
pub fn same(m: &Fmt, got: u128, want: model::V) -> bool {
    if want.is_nan() {
        m.decode(got).is_nan()
    } else {
        got == m.encode(want)
    }
}

pub fn showv(m: &Fmt, bits: u128) -> String {
    let v = m.decode(bits);
    let t = match v {
        model::V::Nan { neg, sig } => format!("{}NaN({:#x})", if neg { "-" } else { "" }, sig),
        model::V::Inf(n) => format!("{}inf", if n { "-" } else { "" }),
        model::V::Zero(n) => format!("{}0", if n { "-" } else { "" }),
        model::V::Fin { neg, m, e } => format!("{}{:#x}p{}", if neg { "-" } else { "" }, m, e),
    };
    format!("{:#x}[{}]", bits, t)
}

/// Run a generic function for a list of formats: `for_fmts!(func(k, extra args): T1, T2)`.
#[macro_export]
macro_rules! for_fmts {
    ($f:ident $args:tt : $($t:ident),* $(,)?) => { $( $crate::for_fmts!(@one $f $t $args); )* };
    (@one $f:ident $t:ident ($($a:expr),*)) => { $f::<$crate::fmts::$t>($($a),*); };
}
/// As `for_fmts!`, for a function pointer argument that is itself generic in the format:
/// `spaces!(all_pairs(k, "tag"; pair): T1, T2)` calls `all_pairs::<T1>(k, "tag", pair::<T1>)`.
#[macro_export]
macro_rules! spaces {
    ($f:ident $args:tt : $($t:ident),* $(,)?) => { $( $crate::spaces!(@one $f $t $args); )* };
    (@one $f:ident $t:ident ($($a:expr),* ; $g:ident)) => { $f::<$crate::fmts::$t>($($a,)* $g::<$crate::fmts::$t>); };
}

/// Exception flags caused by NaN operands: INVALID exactly if one of them is signaling.
pub fn nan_st(m: &Fmt, v: &[model::V]) -> u8 {
    if v.iter().any(|&x| m.is_snan(x)) {
        model::INVALID
    } else {
        0
    }
}
/// `v` with a signaling NaN quieted. x87: the integer bit is left alone.
pub fn quiet(m: &Fmt, v: model::V) -> model::V {
    match v {
        model::V::Nan { neg, sig } => model::V::Nan { neg, sig: sig | m.quiet_bit() },
        _ => v,
    }
}

/// Cross product of format lists: `for_pairs!(func(k): [A1, A2] x [B1, B2])` calls `func::<A, B>(k)`.
#[macro_export]
macro_rules! for_pairs {
    ($f:ident $args:tt : [$($a:ident),*] x $b:tt) => { $( $crate::for_pairs!(@row $f $args $a $b); )* };
    (@row $f:ident $args:tt $a:ident [$($b:ident),*]) => { $( $crate::for_pairs!(@one $f $args $a $b); )* };
    (@one $f:ident ($($x:expr),*) $a:ident $b:ident) => { $f::<$crate::fmts::$a, $crate::fmts::$b>($($x),*); };
}

/// A long string, shortened for messages.
pub fn clip(s: &str) -> String {
    if s.chars().count() <= 300 {
        return format!("{s:?}");
    }
    let v: Vec<char> = s.chars().collect();
    let (a, b): (String, String) = (v[..120].iter().collect(), v[v.len() - 120..].iter().collect());
    format!("{:?}...{:?} ({} chars)", a, b, v.len())
}
