//! C25: every operation ends, without panicking, in a well-formed result.
use checks::*;
use rustc_apfloat::{Category, Float, FloatConvert, Status, StatusAnd, IEK_INF, IEK_NAN, IEK_ZERO};

/// What is wrong with `x` as a value of the format, if anything.
fn ill<T: Sub>(x: T::F) -> Option<&'static str> {
    let m = &T::M;
    let b = x.to_bits();
    if m.bits < 128 && b >> m.bits != 0 {
        return Some("encodes outside the width of the format");
    }
    let y = T::F::from_bits(b);
    if y.to_bits() != b {
        return Some("does not decode to what it encodes as");
    }
    if !x.bitwise_eq(y) {
        return Some("differs from what its encoding decodes to");
    }
    let k = x.category();
    if k != y.category() || x.is_negative() != y.is_negative() {
        return Some("has another category or sign than its encoding");
    }
    let one_of = (x.is_nan(), x.is_infinite(), x.is_zero(), x.is_finite_non_zero());
    let want = match k {
        Category::NaN => (true, false, false, false),
        Category::Infinity => (false, true, false, false),
        Category::Zero => (false, false, true, false),
        Category::Normal => (false, false, false, true),
    };
    if one_of != want || x.is_finite() != (x.is_zero() || x.is_finite_non_zero()) {
        return Some("is not in exactly one category");
    }
    if x.is_normal() && x.is_denormal() || (x.is_normal() || x.is_denormal()) != x.is_finite_non_zero() {
        return Some("is not exactly one of normal and subnormal");
    }
    if m.nanonly && x.is_infinite() {
        return Some("is an infinity of a format without one");
    }
    if x.is_signaling() && !x.is_nan() {
        return Some("is signaling but no NaN");
    }
    None
}
/// A result with a status, of an operation that may raise the flags in `may`.
fn ill_st<T: Sub>(r: &StatusAnd<T::F>, may: Status) -> Option<&'static str> {
    let s = r.status;
    if s - may != Status::OK {
        return Some("raises a flag it never may");
    }
    if s.intersects(Status::OVERFLOW | Status::UNDERFLOW) && !s.contains(Status::INEXACT) {
        return Some("overflows or underflows without being inexact");
    }
    if s.contains(Status::INVALID_OP) && (!r.value.is_nan() || s != Status::INVALID_OP) {
        return Some("is invalid but no NaN, or raises more than that");
    }
    if s.contains(Status::DIV_BY_ZERO) && (r.value.is_finite() || s != Status::DIV_BY_ZERO) {
        return Some("divides by zero but is finite, or raises more than that");
    }
    ill::<T>(r.value)
}

const ARITH: Status = Status::from_bits_truncate(0x1d);

macro_rules! must {
    ($c:ident, $T:ty, $op:expr, $a:expr, $b:expr, $d:expr, $e:expr, $x:expr) => {{
        $c.at(&$op, $a, $b, $d, $x as u64);
        let bad: Option<&'static str> = $e;
        $c.transitions += 1;
        if let Some(why) = bad {
            return $c.fail(format!("{} {}({:#x}, {:#x}, {:#x}) [{:?}]: the result {}", <$T as Sub>::M.name, $op, $a, $b, $d, $x, why));
        }
    }};
}

fn to<A: Float + FloatConvert<B::F>, B: Sub>(x: A, rm: model::Rm) -> Option<&'static str> {
    let mut l = false;
    let r: StatusAnd<B::F> = x.convert_r(rnd(rm), &mut l);
    if r.status.contains(Status::INEXACT) && !l {
        return Some("is inexact without losing information");
    }
    if let Some(w) = ill::<B>(r.value) {
        return Some(w);
    }
    if r.status.contains(Status::INVALID_OP) && !r.value.is_nan() {
        return Some("is invalid but no NaN");
    }
    None
}
trait All: Sub {
    fn conv(x: Self::F, rm: model::Rm) -> Option<&'static str>;
}
macro_rules! alls {
    ($($t:ident),* $(,)?) => {$(
        impl All for $t {
            fn conv(x: Self::F, rm: model::Rm) -> Option<&'static str> {
                to::<Self::F, Half>(x, rm)
                    .or_else(|| to::<Self::F, BFloat>(x, rm))
                    .or_else(|| to::<Self::F, Single>(x, rm))
                    .or_else(|| to::<Self::F, Double>(x, rm))
                    .or_else(|| to::<Self::F, Quad>(x, rm))
                    .or_else(|| to::<Self::F, E5M2>(x, rm))
                    .or_else(|| to::<Self::F, E4M3FN>(x, rm))
                    .or_else(|| to::<Self::F, X87>(x, rm))
                    .or_else(|| to::<Self::F, T6E3>(x, rm))
                    .or_else(|| to::<Self::F, N7E3>(x, rm))
            }
        }
    )*};
}
alls!(T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, T8E3, N8E3, T8E4, E5M2, E4M3FN, T9E4, N9E4, T10E5, N10E5, Half, BFloat, Single, Double, X87, Quad);

const WIDTHS: [usize; 17] = [1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64, 65, 96, 113, 126, 127, 128];

fn ints<T: Sub>(x: T::F, w: usize, rm: model::Rm) -> Option<&'static str> {
    let (mut e, mut f) = (false, false);
    let u = x.to_u128_r(w, rnd(rm), &mut e);
    let i = x.to_i128_r(w, rnd(rm), &mut f);
    if w < 128 && u.value >> w != 0 {
        return Some("does not fit the unsigned width");
    }
    if w < 128 && (i.value >> (w - 1) != 0 && i.value >> (w - 1) != -1) {
        return Some("does not fit the signed width");
    }
    for (s, e) in [(u.status, e), (i.status, f)] {
        if s != Status::OK && s != Status::INEXACT && s != Status::INVALID_OP {
            return Some("is an integer with an impossible status");
        }
        if e && s != Status::OK {
            return Some("is an exact integer with a flag");
        }
    }
    None
}

fn unary<T: All>(c: &mut Ctx, a: u128) {
    let x = T::F::from_bits(a);
    c.states += 1;
    must!(c, T, "from_bits", a, 0u128, 0u128, if a == x.to_bits() || T::M.x87 { ill::<T>(x) } else { Some("does not encode back") }, 0);
    must!(c, T, "neg", a, 0u128, 0u128, ill::<T>(-x), 0);
    must!(c, T, "abs", a, 0u128, 0u128, ill::<T>(x.abs()), 0);
    must!(c, T, "next_up", a, 0u128, 0u128, ill_st::<T>(&x.next_up(), Status::INVALID_OP), 0);
    must!(c, T, "next_down", a, 0u128, 0u128, ill_st::<T>(&x.next_down(), Status::INVALID_OP), 0);
    must!(c, T, "ilogb", a, 0u128, 0u128, {
        let l = x.ilogb();
        let ok = match x.category() {
            Category::NaN => l == IEK_NAN,
            Category::Infinity => l == IEK_INF,
            Category::Zero => l == IEK_ZERO,
            Category::Normal => l >= T::M.elsb() && l <= T::M.emax,
        };
        if ok { None } else { Some("is outside the range of exponents") }
    }, 0);
    must!(c, T, "get_exact_inverse", a, 0u128, 0u128, x.get_exact_inverse().and_then(|y| ill::<T>(y).or(if (x * y).status == Status::OK { None } else { Some("is no exact inverse") })), 0);
    must!(c, T, "is_*", a, 0u128, 0u128, {
        let _ = (x.is_smallest(), x.is_largest(), x.is_smallest_normalized(), x.is_pos_zero(), x.is_neg_zero(), x.is_pos_infinity(), x.is_neg_infinity(), x.is_non_zero());
        if T::M.emax >= T::M.p as i32 && x.is_integer() && !x.is_finite() { Some("is an integer but not finite") } else { None }
    }, 0);
    for rm in RMS {
        // (formats that do not reach 2^p have no way to round to integers)
        if T::M.emax >= T::M.p as i32 {
            must!(c, T, "round_to_integral", a, 0u128, 0u128, {
                let r = x.round_to_integral(rnd(rm));
                ill_st::<T>(&r, Status::INVALID_OP | Status::INEXACT).or(if r.value.is_integer() || !r.value.is_finite() { None } else { Some("is no integer") })
            }, rm);
        }
        must!(c, T, "convert_r", a, 0u128, 0u128, T::conv(x, rm), rm);
        must!(c, T, "frexp_r", a, 0u128, 0u128, {
            let mut e = 0;
            let f = x.frexp_r(&mut e, rnd(rm));
            ill::<T>(f).or(if x.is_finite_non_zero() && T::M.emin < 0 && f.ilogb() != -1 { Some("has a fraction outside [1/2, 1)") } else { None })
        }, rm);
        for w in WIDTHS {
            must!(c, T, "to_int", a, w as u128, 0u128, ints::<T>(x, w, rm), rm);
        }
        let span = T::M.emax - T::M.elsb();
        for n in [i32::MIN, i32::MIN + 1, -(1 << 30), -65536, -32768, -2 * span, -span - 1, -span, -1, 0, 1, span, span + 1, 2 * span, 32767, 65536, 1 << 30, i32::MAX - 1, i32::MAX] {
            must!(c, T, "scalbn_r", a, n as u32 as u128, 0u128, ill::<T>(x.scalbn_r(n, rnd(rm))), rm);
        }
    }
    c.traces += 1;
    c.outcome(a);
    c.sample(|| format!("{} unary operations on {} are well-formed", T::M.name, showv(&T::M, a)));
}

fn pair<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    c.states += 1;
    for rm in RMS {
        let r = rnd(rm);
        must!(c, T, "add_r", a, b, 0u128, ill_st::<T>(&x.add_r(y, r), ARITH), rm);
        must!(c, T, "sub_r", a, b, 0u128, ill_st::<T>(&x.sub_r(y, r), ARITH), rm);
        must!(c, T, "mul_r", a, b, 0u128, ill_st::<T>(&x.mul_r(y, r), ARITH), rm);
        must!(c, T, "div_r", a, b, 0u128, ill_st::<T>(&x.div_r(y, r), Status::all()), rm);
    }
    must!(c, T, "ieee_rem", a, b, 0u128, ill_st::<T>(&x.ieee_rem(y), Status::INVALID_OP), 0);
    must!(c, T, "c_fmod", a, b, 0u128, ill_st::<T>(&x.c_fmod(y), Status::INVALID_OP), 0);
    must!(c, T, "min/max", a, b, 0u128, ill::<T>(x.min(y)).or_else(|| ill::<T>(x.max(y))).or_else(|| ill::<T>(x.minimum(y))).or_else(|| ill::<T>(x.maximum(y))), 0);
    must!(c, T, "copy_sign", a, b, 0u128, ill::<T>(x.copy_sign(y)), 0);
    must!(c, T, "cmp", a, b, 0u128, {
        let o = x.partial_cmp(&y);
        if o.is_none() != (x.is_nan() || y.is_nan()) || y.partial_cmp(&x) != o.map(|o| o.reverse()) || (x == y) != (o == Some(std::cmp::Ordering::Equal)) {
            Some("is no consistent order")
        } else {
            if x.is_finite_non_zero() && y.is_finite_non_zero() {
                let _ = x.cmp_abs_normal(y);
            }
            None
        }
    }, 0);
    c.traces += 1;
    c.outcome(a ^ b << 64);
    c.sample(|| format!("{} binary operations on {} and {} are well-formed", T::M.name, showv(&T::M, a), showv(&T::M, b)));
}
fn triple<T: Sub>(c: &mut Ctx, a: u128, b: u128, d: u128) {
    let (x, y, z) = (T::F::from_bits(a), T::F::from_bits(b), T::F::from_bits(d));
    c.states += 1;
    for rm in RMS {
        must!(c, T, "mul_add_r", a, b, d, ill_st::<T>(&x.mul_add_r(y, z, rnd(rm)), ARITH), rm);
    }
    c.traces += 1;
    c.outcome(a ^ b << 40 ^ d << 80);
}

/// Every formatting option on one value; what is printed consists of the characters of a number.
fn print<T: Sub>(c: &mut Ctx, a: u128, rich: u8) {
    let x = T::F::from_bits(a);
    c.states += 1;
    let mut buf = String::new();
    macro_rules! p {
        ($($f:literal, $($e:expr),*);* $(;)?) => {$(
            must!(c, T, $f, a, 0u128, 0u128, {
                use std::fmt::Write;
                buf.clear();
                if write!(buf, $f, $($e),*).is_err() {
                    Some("is an error of formatting")
                } else if buf.is_empty() || !buf.bytes().all(|b| b"0123456789+-.eEINFNanf".contains(&b)) {
                    Some("is not printed as a number")
                } else {
                    None
                }
            }, 0);
        )*};
    }
    p!("{}", x; "{:#.0}", x; "{:0.1}", x);
    if rich == 0 {
        c.traces += 1;
        return;
    }
    p!("{:#}", x; "{:.0}", x; "{:.1}", x; "{:.2}", x; "{:.17}", x; "{:#.1}", x; "{:1}", x; "{:2}", x; "{:40}", x; "{:0.3}", x; "{:5.3}", x; "{:#5.3}", x; "{:#1.40}", x);
    if rich > 1 {
        for q in [5, 50, 500, 5000, 65535] {
            p!("{:.*}", q, x; "{:1$}", x, q; "{:#.*}", q, x);
        }
        for w in 0..12usize {
            for q in 0..12usize {
                p!("{:1$.2$}", x, w, q; "{:#1$.2$}", x, w, q);
            }
        }
    }
    c.traces += 1;
    c.sample(|| format!("{} prints {} as {}", T::M.name, showv(&T::M, a), clip(&buf)));
}

static WILD: &[&str] = &[
    "0", "9", "1", ".", "e", "E", "p", "P", "0x", "+", "-", "nan", "inf", "(", ")", "f", "99999999999999999999999999999999999999999", "2147483647", "2147483648", "18446744073709551616",
    "32767", "00000000000000000000000000000000000000000", "\u{0}", "\u{e9}", " ", "_", "s",
];
fn text<T: Sub>(c: &mut Ctx, s: &str) {
    c.states += 1;
    for rm in RMS {
        c.at_text(&"from_str_r", s, rm as u64);
        c.transitions += 1;
        if let Ok(r) = T::F::from_str_r(s, rnd(rm)) {
            let may = Status::INEXACT | Status::OVERFLOW | Status::UNDERFLOW;
            if let Some(why) = ill_st::<T>(&r, may) {
                return c.fail(format!("{} from_str_r({}) {:?}: the result {}", T::M.name, clip(s), rm, why));
            }
            c.outcome(r.value.to_bits());
        }
    }
    c.traces += 1;
}
fn texts<T: Sub>(k: &mut Check, len: u32) {
    let n = WILD.len() as u64;
    k.job(format!("text up to {len} tokens {}", T::M.name), true, format!("every sequence of at most {len} of {n} tokens, with huge numbers and exponents"), n * n, move |i, c| {
        fn rec<T: Sub>(c: &mut Ctx, s: &mut String, left: u32) {
            text::<T>(c, s);
            if left == 0 || c.failed() {
                return;
            }
            let l = s.len();
            for t in WILD {
                s.push_str(t);
                rec::<T>(c, s, left - 1);
                s.truncate(l);
                if c.failed() {
                    return;
                }
            }
        }
        if i == 0 {
            text::<T>(c, "");
        }
        if i < n {
            text::<T>(c, WILD[i as usize]);
        }
        let mut s = format!("{}{}", WILD[(i / n) as usize], WILD[(i % n) as usize]);
        rec::<T>(c, &mut s, len - 2);
    });
}

/// Operands of a large format: every exponent field with extreme significands, NaNs, improper encodings.
fn corners<T: Sub>(nsig: usize) -> Vec<u128> {
    let m = &T::M;
    let mut v = specials(m);
    let nan = nan_payloads(m);
    v.extend(nan.iter().step_by((nan.len() / 16).max(1)));
    if m.x87 {
        v.extend(x87_odd());
    }
    let sg = few_sigs(m.p);
    let step = (sg.len() / nsig).max(1);
    for be in exps(m, false) {
        for s in sg.iter().step_by(step) {
            v.push(enc(m, false, be, *s));
            v.push(enc(m, true, be, *s));
        }
    }
    for w in 0..m.p - 1 {
        v.push(enc_sub(m, w & 1 != 0, 1 << w));
        v.push(enc_sub(m, w & 1 == 0, mask(w + 1)));
    }
    v.sort();
    v.dedup();
    v
}
fn large<T: All>(k: &mut Check, t: bool) {
    let name = T::M.name;
    let v = corners::<T>(if t { 40 } else { 6 });
    let n = v.len();
    let w = v.clone();
    k.job(format!("corners unary {name}"), true, format!("{n} corner values: all unary operations and formats"), n as u64, move |i, c| {
        unary::<T>(c, w[i as usize]);
        // (far exponents print as thousands of digits)
        let far = T::M.emax > 2000 && !t;
        print::<T>(c, w[i as usize], if far && i % 16 != 0 { 0 } else if i % if far { 128 } else { 16 } != 0 { 1 } else { 2 });
    });
    let w: Vec<u128> = v.iter().copied().step_by((n / if t { 2000 } else { 500 }).max(1)).collect();
    let n = w.len();
    k.job(format!("corners pairs {name}"), true, format!("all pairs of {n} corner values"), n as u64, move |i, c| {
        for &b in &w {
            pair::<T>(c, w[i as usize], b);
            if c.failed() {
                return;
            }
        }
    });
    let w: Vec<u128> = v.iter().copied().step_by((v.len() / if t { 250 } else { 100 }).max(1)).collect();
    let n = w.len();
    k.job(format!("corners triples {name}"), true, format!("all triples of {n} corner values"), (n * n) as u64, move |i, c| {
        for &d in &w {
            triple::<T>(c, w[i as usize / n], w[i as usize % n], d);
            if c.failed() {
                return;
            }
        }
    });
}
fn range_unary<T: All>(k: &mut Check, n: u64) {
    let top = T::M.exp_mask() as u64;
    k.job(format!("unary at every exponent {}", T::M.name), true, format!("all unary operations on {n} values of every exponent"), top, move |be, c| {
        for j in 0..n {
            unary::<T>(c, pick(&T::M, be as i64, be << 10 | j));
            if c.failed() {
                return;
            }
        }
    });
}
fn plain<T: Sub>(c: &mut Ctx, a: u128) {
    print::<T>(c, a, 1 + (T::M.bits <= 8) as u8);
}

fn main() {
    let k = &mut Check::new("C25");
    let t = k.thorough();
    spaces!(all_values(k, "unary"; unary): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, T8E3, N8E3, T8E4, E5M2, E4M3FN, T9E4, N9E4, T10E5, N10E5, Half, BFloat);
    spaces!(all_values(k, "printing"; plain): T6E3, N6E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, Half, BFloat);
    spaces!(all_pairs(k, "pairs"; pair): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, T8E3, N8E3, T8E4, E5M2, E4M3FN, T9E4, N9E4);
    spaces!(all_triples(k, "triples"; triple): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4);
    if t {
        spaces!(all_pairs(k, "pairs"; pair): T10E5, N10E5);
        spaces!(all_triples(k, "triples"; triple): E5M2, E4M3FN, T8E3, N8E3);
    }
    for_fmts!(large(k, t): Half, BFloat, Single, Double, X87, Quad);
    spaces!(range_pairs(k, "pairs", if t { 20 } else { 1 }; pair): Single, Double);
    spaces!(range_triples(k, "triples", if t { 10 } else { 1 }; triple): Single, Double, X87, Quad);
    if t {
        spaces!(range_pairs(k, "pairs", 1; pair): X87, Quad);
    }
    for_fmts!(range_unary(k, if t { 20 } else { 2 }): Single, Double, X87, Quad);
    for_fmts!(texts(k, if t { 6 } else { 5 }): E4M3FN, Half, Double);
    for_fmts!(texts(k, if t { 5 } else { 4 }): E5M2, N6E3, BFloat, Single, X87, Quad);
    k.run()
}
