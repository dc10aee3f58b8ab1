//! C23: operators, default-rounding methods and result wrappers.
use checks::*;
use rustc_apfloat::{ieee, unpack, Float, FloatConvert, Round, Status, StatusAnd};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The types under test: single formats and double-doubles.
trait Any: Copy + Send + Sync + 'static {
    type F: Float + Send + Sync + std::fmt::Debug + 'static;
    const NAME: &'static str;
    fn convs(c: &mut Ctx, bits: u128) -> bool;
}
fn conv<A: Float + FloatConvert<B>, B: Float>(c: &mut Ctx, bits: u128) -> bool {
    c.at(&"convert", bits, 0, 0, 0);
    let (mut l, mut m) = (false, true);
    let x = A::from_bits(bits);
    let r: StatusAnd<B> = x.convert(&mut l);
    let s: StatusAnd<B> = x.convert_r(Round::NearestTiesToEven, &mut m);
    c.transitions += 1;
    r.status == s.status && l == m && r.value.to_bits() == s.value.to_bits()
}
macro_rules! anys {
    ($($t:ident),*) => {$(
        impl Any for $t {
            type F = <$t as Sub>::F;
            const NAME: &'static str = stringify!($t);
            fn convs(c: &mut Ctx, x: u128) -> bool {
                conv::<Self::F, ieee::Half>(c, x)
                    && conv::<Self::F, ieee::BFloat>(c, x)
                    && conv::<Self::F, ieee::Single>(c, x)
                    && conv::<Self::F, ieee::Double>(c, x)
                    && conv::<Self::F, ieee::Quad>(c, x)
                    && conv::<Self::F, ieee::Float8E5M2>(c, x)
                    && conv::<Self::F, ieee::Float8E4M3FN>(c, x)
                    && conv::<Self::F, ieee::X87DoubleExtended>(c, x)
            }
        }
    )*};
}
anys!(T6E3, N6E3, T7E4, N7E4, T8E4, E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
macro_rules! dds {
    ($($t:ident),*) => {$(
        impl Any for $t {
            type F = <$t as Dd>::F;
            const NAME: &'static str = stringify!($t);
            fn convs(_: &mut Ctx, _: u128) -> bool {
                true
            }
        }
    )*};
}
dds!(DD7, DD8, DDouble);

fn show<F: Float + std::fmt::Debug>(r: &StatusAnd<F>) -> String {
    format!("{:#x} {}", r.value.to_bits(), show_st(st(r.status)))
}
fn eqs<F: Float>(a: &StatusAnd<F>, b: &StatusAnd<F>) -> bool {
    a.status == b.status && a.value.to_bits() == b.value.to_bits()
}

fn pair<T: Any>(c: &mut Ctx, a: u128, b: u128) {
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    let ne = Round::NearestTiesToEven;
    c.states += 1;
    macro_rules! eq {
        ($op:literal, $e:expr, $w:expr) => {{
            c.at(&$op, a, b, 0, 0);
            let (g, w) = ($e, $w);
            c.transitions += 1;
            if !eqs(&g, &w) {
                return c.fail(format!("{} {}({:#x}, {:#x}) = {}, the explicit method gives {}", T::NAME, $op, a, b, show(&g), show(&w)));
            }
        }};
    }
    macro_rules! assign {
        ($op:literal, $o:tt, $w:expr) => {{
            c.at(&$op, a, b, 0, 0);
            let mut g = x;
            g $o y;
            c.transitions += 1;
            if g.to_bits() != $w.value.to_bits() {
                return c.fail(format!("{} {}({:#x}, {:#x}) = {:#x}, the explicit method gives {}", T::NAME, $op, a, b, g.to_bits(), show(&$w)));
            }
        }};
    }
    let (add, sub, mul, div) = {
        c.at(&"add_r ...", a, b, 0, 0);
        (x.add_r(y, ne), x.sub_r(y, ne), x.mul_r(y, ne), x.div_r(y, ne))
    };
    eq!("+", x + y, add);
    eq!("-", x - y, sub);
    eq!("*", x * y, mul);
    eq!("/", x / y, div);
    assign!("+=", +=, add);
    assign!("-=", -=, sub);
    assign!("*=", *=, mul);
    assign!("/=", /=, div);
    // remainders of operands far apart take long
    if !(x.is_finite_non_zero() && y.is_finite_non_zero() && x.ilogb() - y.ilogb() > 1000) {
        c.at(&"c_fmod", a, b, 0, 0);
        let rem = x.c_fmod(y);
        eq!("%", x % y, rem);
        assign!("%=", %=, rem);
    }
    eq!("mul_add", x.mul_add(y, y), x.mul_add_r(y, y, ne));
    eq!("mul_add swapped", y.mul_add(y, x), y.mul_add_r(y, x, ne));
    if !x.is_nan() && !y.is_nan() {
        for rm in RMS {
            eq!("sub_r", x.sub_r(y, rnd(rm)), x.add_r(-y, rnd(rm)));
        }
    }
    // copying a sign is negating when the signs differ
    c.at(&"copy_sign", a, b, 0, 0);
    let (g, w) = (x.copy_sign(y), if x.is_negative() == y.is_negative() { x } else { -x });
    c.transitions += 1;
    if g.to_bits() != w.to_bits() {
        return c.fail(format!("{} copy_sign({:#x}, {:#x}) = {:#x}", T::NAME, a, b, g.to_bits()));
    }
    c.outcome(add.value.to_bits() ^ mul.value.to_bits() << 3 ^ (st(div.status) as u128) << 60);
    c.traces += 1;
    c.sample(|| format!("{} operators on {:#x} and {:#x} agree with the explicit methods", T::NAME, a, b));
}

fn unary<T: Any>(c: &mut Ctx, a: u128) {
    let x = T::F::from_bits(a);
    let ne = Round::NearestTiesToEven;
    c.states += 1;
    macro_rules! eq {
        ($op:literal, $e:expr, $w:expr) => {{
            c.at(&$op, a, 0, 0, 0);
            let (g, w) = ($e, $w);
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {}({:#x}) = {:x?}, expected {:x?}", T::NAME, $op, a, g, w));
            }
        }};
    }
    let s = |r: StatusAnd<T::F>| (r.value.to_bits(), st(r.status));
    eq!("next_down", s(x.next_down()), s((-x).next_up().map(|r| -r)));
    eq!("abs", x.abs().to_bits(), if x.is_negative() { (-x).to_bits() } else { a_bits::<T>(x) });
    eq!("-- ", (-(-x)).to_bits(), a_bits::<T>(x));
    for n in [0, 1, -1, 5, -9, 100, -2000, i32::MAX, i32::MIN] {
        eq!("scalbn", x.scalbn(n).to_bits(), x.scalbn_r(n, ne).to_bits());
    }
    let (mut e, mut f) = (1, 2);
    eq!("frexp", x.frexp(&mut e).to_bits(), x.frexp_r(&mut f, ne).to_bits());
    eq!("frexp exponent", e, f);
    // fixed widths, those around the value's own, and one that varies
    let lg = x.ilogb().clamp(0, 125) as usize;
    for w in [1usize, 2, 5, 8, 31, 32, 64, 127, 128, lg + 1, lg + 2, 1 + (scramble(a as u64 ^ (a >> 64) as u64) >> 60) as usize % 128] {
        let mut ex = false;
        eq!("to_u128", int(x.to_u128(w)), int(x.to_u128_r(w, Round::TowardZero, &mut ex)));
        eq!("to_i128", int(x.to_i128(w).map(|v| v as u128)), int(x.to_i128_r(w, Round::TowardZero, &mut ex).map(|v| v as u128)));
        for rm in RMS {
            let (mut p, mut q) = (false, true);
            let signed = x.to_i128_r(w, rnd(rm), &mut p);
            if x.is_nan() {
                continue;
            }
            if x.is_negative() {
                // the negated magnitude, rounded the other way
                let m = (-x).to_u128_r(w, -rnd(rm), &mut q);
                if m.status & Status::INVALID_OP == Status::OK && m.value <= 1 << (w - 1) && !x.is_zero() {
                    eq!("to_i128_r negated", (int(signed.map(|v| v as u128)), p), ((m.value.wrapping_neg(), st(m.status)), q));
                }
            } else if w > 1 {
                let m = x.to_u128_r(w - 1, rnd(rm), &mut q);
                eq!("to_i128_r positive", (int(signed.map(|v| v as u128)), p), (int(m), q));
            }
        }
    }
    if !T::convs(c, a) {
        return c.fail(format!("{} convert({:#x}) is not the explicit nearest-even conversion", T::NAME, a));
    }
    // the result wrappers keep both parts
    for r in [x.next_up(), x + x, x / x, x.round_to_integral(ne)] {
        let (v, t) = (r.value.to_bits(), r.status);
        eq!("StatusAnd::map", (r.map(|v| v.to_bits()).value, r.map(|v| v.to_bits()).status), (v, t));
    }
    c.outcome(x.next_down().value.to_bits());
    c.traces += 1;
}
fn int(r: StatusAnd<u128>) -> (u128, u8) {
    (r.value, st(r.status))
}
fn a_bits<T: Any>(x: T::F) -> u128 {
    x.to_bits()
}

fn ints<T: Any>(c: &mut Ctx, n: u128) {
    let ne = Round::NearestTiesToEven;
    c.states += 1;
    macro_rules! eq {
        ($op:literal, $e:expr, $w:expr) => {{
            c.at(&$op, n, 0, 0, 0);
            let (g, w) = ($e, $w);
            c.transitions += 1;
            if !eqs(&g, &w) {
                return c.fail(format!("{} {}({:#x}) = {}, expected {}", T::NAME, $op, n, show(&g), show(&w)));
            }
        }};
    }
    eq!("from_u128", T::F::from_u128(n), T::F::from_u128_r(n, ne));
    eq!("from_i128", T::F::from_i128(n as i128), T::F::from_i128_r(n as i128, ne));
    for rm in RMS {
        let r = rnd(rm);
        if n as i128 >= 0 {
            eq!("from_i128_r", T::F::from_i128_r(n as i128, r), T::F::from_u128_r(n, r));
        } else {
            eq!("from_i128_r", T::F::from_i128_r(n as i128, r), T::F::from_u128_r(n.wrapping_neg(), -r).map(|v| -v));
        }
    }
    c.traces += 1;
}

fn texts<T: Any>(c: &mut Ctx, s: &str) {
    c.states += 1;
    c.at_text(&"FromStr", s, 0);
    let g = s.parse::<T::F>();
    let w = T::F::from_str_r(s, Round::NearestTiesToEven);
    c.transitions += 1;
    let ok = match (&g, &w) {
        (Ok(g), Ok(w)) => g.to_bits() == w.value.to_bits(),
        (Err(g), Err(w)) => g == w,
        _ => false,
    };
    if !ok {
        return c.fail(format!("{} parse({:?}) = {:?}, from_str_r gives {:?}", T::NAME, s, g.map(|v| v.to_bits()), w.map(|v| v.value.to_bits())));
    }
    c.traces += 1;
}

/// Status values: every one of the 32, and every pair.
fn wrappers(c: &mut Ctx) {
    let all = [Status::INVALID_OP, Status::DIV_BY_ZERO, Status::OVERFLOW, Status::UNDERFLOW, Status::INEXACT];
    let status = |n: u8| {
        let mut s = Status::OK;
        for (i, f) in all.iter().enumerate() {
            if n >> i & 1 != 0 {
                s |= *f;
            }
        }
        s
    };
    for a in 0..32u8 {
        c.states += 1;
        c.at(&"StatusAnd", a as u128, 0, 0, 0);
        let s = status(a);
        c.transitions += 4;
        let mut seen = 0;
        let m = s.and(17u32).map(|v| {
            seen = v;
            v + 1
        });
        if m.status != s || m.value != 18 || seen != 17 || s.and("x").value != "x" || s.and(()).status != s {
            return c.fail(format!("and/map lose the status or the value of {s:?}"));
        }
        c.at(&"unwrap", a as u128, 0, 0, 0);
        let u = catch_unwind(AssertUnwindSafe(|| s.and(5).unwrap()));
        if u.is_ok() != (a == 0) || u.is_ok_and(|v| v != 5) {
            return c.fail(format!("unwrap with status {s:?}"));
        }
        for b in 0..32u8 {
            let mut acc = status(b);
            let v = unpack!(acc|=, s.and(3));
            let only;
            let w = unpack!(only=, s.and(4));
            c.transitions += 2;
            if v != 3 || w != 4 || acc != status(a | b) || only != s || (s == status(b)) != (a == b) {
                return c.fail(format!("unpack! of {s:?} into {:?}", status(b)));
            }
        }
        c.outcome(a as u128);
        c.traces += 1;
    }
    for rm in RMS {
        c.at(&"-Round", 0, 0, 0, rm as u64);
        c.transitions += 1;
        if -rnd(rm) != rnd(rm.mirror()) {
            return c.fail(format!("-{:?} = {:?}", rnd(rm), -rnd(rm)));
        }
    }
    c.traces += 1;
}

fn squares<T: Any>(k: &mut Check, v: Vec<u128>, near: bool) {
    let n = v.len();
    let u = v.clone();
    k.job(format!("operators {}", T::NAME), true, format!("all pairs of {n} values"), n as u64, move |i, c| {
        let a = v[i as usize];
        let x = T::F::from_bits(a);
        for &b in &v {
            let y = T::F::from_bits(b);
            if near && x.is_finite_non_zero() && y.is_finite_non_zero() && x.ilogb() - y.ilogb() > 400 {
                continue;
            }
            pair::<T>(c, a, b);
            if c.failed() {
                return;
            }
        }
    });
    k.job(format!("unary {}", T::NAME), true, format!("{n} values"), n.div_ceil(64) as u64, move |i, c| {
        for &a in u.iter().skip(i as usize * 64).take(64) {
            unary::<T>(c, a);
            if c.failed() {
                return;
            }
        }
    });
    let mut is: Vec<u128> = (0..300).collect();
    for b in 0..128u32 {
        let t = 1u128 << b;
        is.extend([t, t - 1, t + 1, t | t >> 1 | 1, t.wrapping_sub(t >> 9), t | t >> 3 | t >> 7]);
    }
    for a in 1..128u32 {
        for b in 0..a {
            is.extend([1 << a | 1 << b, (1u128 << a) - (1 << b)]);
        }
        for top in 1..32u128 {
            // every position of every short run of leading bits, over a scrambled tail
            is.push((top << a) >> 5 << 5 | (scramble(top as u64 ^ (a as u64) << 8) >> (128 - a)));
        }
    }
    let neg: Vec<u128> = is.iter().map(|n| n.wrapping_neg()).collect();
    is.extend(neg);
    let abc = ['0', '1', '9', '.', 'e', '-', '+', 'x', 'p', 'n'];
    let mut strings: Vec<String> = ["", "inf", "-inf", "nan", "-nan(0x3)", "snan", "INFINITY", "1e400", "1e-400", "123456789012345678901234567890.5", "0x1.fffffffffffffffffp3"].iter().map(|s| s.to_string()).collect();
    for a in abc {
        for b in abc {
            for d in abc {
                strings.push([a, b, d].iter().collect());
                strings.push(format!("{a}{b}"));
                strings.push(format!("{a}{b}{d}5"));
            }
        }
    }
    // ties between neighbours, written ever longer
    let p = T::F::PRECISION;
    for n in [(1u128 << p) + 1, (1 << p) + 3, (3 << (p - 1)) + 1, (3 << (p - 1)) + 3, (1 << p) + 2] {
        for z in (0..80).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 1000]) {
            let (a, z) = (["", "-", "+"][z % 3], "0".repeat(z));
            for t in [format!("{a}{n}.{z}"), format!("{a}{z}{n}"), format!("{a}{n}.{z}1"), format!("{a}{n}{z}e-{}", z.len()), format!("{a}0x{n:x}.{z}p0"), format!("{a}0x{n:x}.{z}1p-1"), format!("{a}0x{z}{n:x}P1"), format!("{a}0x0.{z}{n:x}p{}", 4 * z.len() + p)] {
                strings.push(t);
            }
        }
    }
    k.job(format!("integers and strings {}", T::NAME), true, format!("{} integers, {} strings, the default value", is.len(), strings.len()), 1, move |_, c| {
        c.at(&"default", 0, 0, 0, 0);
        if T::F::default().to_bits() != 0 || T::F::ZERO.to_bits() != 0 {
            return c.fail(format!("{} default() is not +0", T::NAME));
        }
        for &n in &is {
            ints::<T>(c, n);
        }
        for s in &strings {
            texts::<T>(c, s);
        }
    });
}

/// Operands at every exponent, with partners near and far.
fn by_exponent<T: Any>(k: &mut Check, top: u64, p: i64, step: usize, value: impl Fn(u64, u64) -> u128 + Send + Sync + 'static) {
    let d: Vec<i64> = [0, 1, -1, p, -p, 2, 3, -2, 7, -9, p / 2, -p / 2, p - 1, 1 - p, p + 1, -p - 1, p + 3, 2 * p, -2 * p].into_iter().step_by(step).collect();
    let chunk = (top / 1024).max(1);
    k.job(
        format!("operators by exponent {}", T::NAME),
        true,
        format!("six scrambled significands at each of the {top} exponents alone, and one with partners {d:?} binades away, at two varying distances, in the middle and at the top (remainders up to 1000 binades apart)"),
        top.div_ceil(chunk),
        move |i, c| {
            for e in i * chunk..((i + 1) * chunk).min(top) {
                let x = value(e, 0);
                for j in 0..6 {
                    unary::<T>(c, value(e, 100 * j));
                }
                let mut ys: Vec<u64> = d.iter().map(|d| e as i64 + d).filter(|y| (0..top as i64).contains(y)).map(|y| y as u64).collect();
                // two others, at distances that vary
                ys.extend([(e * 37 + 11) % top, (e * 101 + 7) % top, top / 2, top / 2 + 1, top - 1]);
                for (j, y) in ys.into_iter().enumerate() {
                    let y = value(y, 1 + j as u64);
                    pair::<T>(c, x, y);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

fn main() {
    let k = &mut Check::new("C23");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    k.job("result wrappers", true, "all 32 status values and all pairs of them", 1, |_, c| wrappers(c));
    macro_rules! small {
        ($($t:ident),*) => {$( squares::<$t>(k, (0..1u128 << <$t as Sub>::M.bits).collect(), false); )*};
    }
    small!(T6E3, N6E3, T7E4, N7E4, T8E4, E5M2, E4M3FN);
    macro_rules! large {
        ($($t:ident),*) => {$( squares::<$t>(k, thin(values(&<$t as Sub>::M, q(6, 30), true), q(1200, 3000)), <$t as Sub>::M.emax > 300); )*};
    }
    large!(Half, BFloat, Single, Double, X87, Quad);
    macro_rules! exps {
        ($s:expr; $($t:ident),*) => {$({
            let m = <$t as Sub>::M;
            by_exponent::<$t>(k, m.exp_mask() as u64, m.p as i64, $s, move |e, j| {
                let s = (scramble(e << 8 | j) >> (128 - m.p)) | 1 << (m.p - 1);
                let neg = (e ^ j) % 2 == 1;
                if e == 0 { enc_sub(&m, neg, s) } else { enc(&m, neg, e as u128, s) }
            });
        })*};
    }
    exps!(1; BFloat, Single, Double);
    exps!(q(2, 1); X87, Quad);
    by_exponent::<DDouble>(k, 2046, 106, 1, |e, j| {
        let m = Double::M;
        let half = |e: u64, j: u64| {
            let s = (scramble(e << 9 | j) >> 75) | 1 << 52;
            if e == 0 { enc_sub(&m, j % 2 == 1, s) } else { enc(&m, j % 2 == 1, e as u128, s) }
        };
        // the low half at varying distances, or zero
        let low = e.saturating_sub(54 + (scramble(e << 3 ^ j) >> 122) as u64);
        half(e, e + j) | (if low == 0 { 0 } else { half(low, e + j * 3 + 1) }) << 64
    });
    squares::<DD7>(k, thin((0..1 << 14).collect(), q(1000, 4000)), false);
    squares::<DD8>(k, thin(canonicals::<DD8>().into_iter().map(|(h, l)| h | l << 8).collect(), q(1000, 4000)), false);
    squares::<DDouble>(k, thin(dd_values::<DDouble>(2, true), q(300, 2000)), true);
    k.run()
}
