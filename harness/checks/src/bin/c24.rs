//! C24: double-double operations that use 2p-bit arithmetic, scaling, and the absence of panics.
use checks::*;
use model::text::{expand, layout, parse, pred_digits, succ_digits, unprint};
use rustc_apfloat::{Float, Round, StatusAnd};
use std::fmt::Write;
use std::sync::Arc;

fn check_fb<T: Dd>(c: &mut Ctx, what: &str, args: &[u128], rm: Rm, got: StatusAnd<T::F>, want: (V, u8)) -> bool {
    let w = split::<T>(want.0);
    let hi_overflow = want.0.is_fin_nz() && w.0.is_inf();
    c.transitions += 1;
    let gs = st(got.status);
    let bits = got.value.to_bits();
    if !same_pair::<T>(bits, w) || gs != want.1 && !hi_overflow {
        let a: Vec<String> = args.iter().map(|&a| showp::<T>(a)).collect();
        c.fail(format!(
            "{} {}({}) {:?} = {} {}, the {}-bit result is {:?} {}, as a pair {:?}",
            T::NAME, what, a.join(", "), rm, showp::<T>(bits), show_st(gs), T::FB.p, want.0, show_st(want.1), w
        ));
        return false;
    }
    c.outcome(bits);
    true
}

/// Operations that round the result of 2p-bit arithmetic: two operands.
fn fb2<T: Dd, I: Int>(c: &mut Ctx, a: &Val<I>, b: &Val<I>, modes: &[Rm]) {
    if a.h.is_nan() || b.h.is_nan() {
        return;
    }
    let (x, y) = (T::F::from_bits(a.bits), T::F::from_bits(b.bits));
    let args = [a.bits, b.bits];
    c.states += 1;
    for &rm in modes {
        c.at(&"div_r", a.bits, b.bits, 0, rm as u64);
        if !check_fb::<T>(c, "div_r", &args, rm, x.div_r(y, rnd(rm)), T::FB.div(a.fb, b.fb, rm)) {
            return;
        }
    }
    c.at(&"ieee_rem", a.bits, b.bits, 0, 0);
    if !check_fb::<T>(c, "ieee_rem", &args, Rm::Ne, x.ieee_rem(y), T::FB.rem(a.fb, b.fb, true)) {
        return;
    }
    c.at(&"c_fmod", a.bits, b.bits, 0, 0);
    if !check_fb::<T>(c, "c_fmod", &args, Rm::Ne, x.c_fmod(y), T::FB.rem(a.fb, b.fb, false)) {
        return;
    }
    c.traces += 1;
    c.sample(|| format!("{} quotient and remainders of {} and {} as in {}-bit arithmetic", T::NAME, showp::<T>(a.bits), showp::<T>(b.bits), T::FB.p));
}
fn fb3<T: Dd, I: Int>(c: &mut Ctx, a: &Val<I>, b: &Val<I>, d: &Val<I>, modes: &[Rm]) {
    if a.h.is_nan() || b.h.is_nan() || d.h.is_nan() {
        return;
    }
    let (x, y, z) = (T::F::from_bits(a.bits), T::F::from_bits(b.bits), T::F::from_bits(d.bits));
    c.states += 1;
    for &rm in modes {
        c.at(&"mul_add_r", a.bits, b.bits, d.bits, rm as u64);
        if !check_fb::<T>(c, "mul_add_r", &[a.bits, b.bits, d.bits], rm, x.mul_add_r(y, z, rnd(rm)), T::FB.fma(a.fb, b.fb, d.fb, rm)) {
            return;
        }
    }
    c.traces += 1;
}

/// One operand: every unary operation. `bits` need not be canonical.
fn unary<T: Dd>(c: &mut Ctx, bits: u128, rich: bool) {
    let m = cm::<T>();
    let fb = &T::FB;
    let (h, l) = halves::<T>(bits);
    let (hv, lv) = (m.decode(h), m.decode(l));
    let x = T::F::from_bits(bits);
    c.states += 1;
    // what 2p-bit arithmetic makes of a number plus an infinity or a NaN is not specified
    let known = !hv.is_nan() && (!hv.is_fin_nz() || lv.is_finite());
    let v = if known { to_fb::<T>(hv, lv) } else { m.qnan() };
    let args = [bits];
    for rm in RMS {
        c.at(&"round_to_integral", bits, 0, 0, rm as u64);
        let r = x.round_to_integral(rnd(rm));
        // (2^2p must be representable)
        if known && fb.emax >= fb.p as i32 && !check_fb::<T>(c, "round_to_integral", &args, rm, r, fb.rti(v, rm)) {
            return;
        }
    }
    for up in [true, false] {
        let name: &'static &'static str = if up { &"next_up" } else { &"next_down" };
        c.at(name, bits, 0, 0, 0);
        let r = if up { x.next_up() } else { x.next_down() };
        let want = if up { fb.next_up(v) } else { fb.next_up(v.negate()).negate() };
        if known && !check_fb::<T>(c, name, &args, Rm::Ne, r, (want, 0)) {
            return;
        }
    }
    let ws: &[u32] = if rich { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24, 32, 63, 64, 65, 128] } else { &[1, 2, 5, 8, 13, 127, 128] };
    let near: Vec<u32> = match (rich, fb.ilogb(v)) {
        (true, Some(e)) if known && e > 0 && e < 130 => (e - 1..=e + 3).filter(|&w| w > 0 && w <= 128).map(|w| w as u32).chain([(scramble(bits as u64) >> 100) as u32 % 128 + 1]).collect(),
        _ => vec![],
    };
    for &w in ws.iter().chain(&near) {
        for rm in RMS {
            for signed in [false, true] {
                let op: &'static &'static str = if signed { &"to_i128_r" } else { &"to_u128_r" };
                c.at(op, bits, w as u128, 0, rm as u64);
                let mut exact = w & 1 == 0;
                let (got, gs) = if signed {
                    let r = x.to_i128_r(w as usize, rnd(rm), &mut exact);
                    (r.value as u128, st(r.status))
                } else {
                    let r = x.to_u128_r(w as usize, rnd(rm), &mut exact);
                    (r.value, st(r.status))
                };
                // (nor is the sign of a sum of halves that are not canonical)
                if !known && !hv.is_nan() || known && v.neg() != hv.neg() {
                    continue;
                }
                let (neg, mag, ws, we) = fb.to_int(v, w, signed, rm);
                let want = if neg { mag.wrapping_neg() } else { mag };
                c.transitions += 1;
                if got != want || gs != ws || exact != we {
                    return c.fail(format!(
                        "{} {}({}, width {}) {:?} = {:#x} {} exact={}, expected {:#x} {} exact={}",
                        T::NAME, op, showp::<T>(bits), w, rm, got, show_st(gs), exact, want, show_st(ws), we
                    ));
                }
            }
        }
    }
    c.at(&"get_exact_inverse", bits, 0, 0, 0);
    let inv = x.get_exact_inverse().map(|r| r.to_bits());
    if known {
        let winv = match v {
            V::Fin { neg, m: s, .. } if s == 1 << (fb.p - 1) => {
                let (r, ex) = fb.round(neg, 1, -fb.ilogb(v).unwrap(), false, Rm::Ne);
                if ex == 0 && r.is_fin_nz() && !fb.subnormal(r) { Some(split::<T>(r)) } else { None }
            }
            _ => None,
        };
        c.transitions += 1;
        let ok = match (inv, winv) {
            (None, None) => true,
            (Some(g), Some(w)) => same_pair::<T>(g, w),
            _ => false,
        };
        if !ok {
            return c.fail(format!("{} get_exact_inverse({}) = {:x?}, expected {:?}", T::NAME, showp::<T>(bits), inv, winv));
        }
    }
    scaling::<T>(c, bits, hv, lv);
    if c.failed() {
        return;
    }
    print::<T>(c, bits, if known { Some(v) } else { None }, rich);
    c.traces += 1;
    c.sample(|| format!("{} unary operations on {}", T::NAME, showp::<T>(bits)));
}

fn scale_by<T: Dd>(c: &mut Ctx, bits: u128, n: i32) {
    let m = cm::<T>();
    let x = T::F::from_bits(bits);
    let (h, l) = halves::<T>(bits);
    let (hv, lv) = (m.decode(h), m.decode(l));
    for rm in RMS {
        c.at(&"scalbn_r", bits, n as u32 as u128, 0, rm as u64);
        let r = x.scalbn_r(n, rnd(rm));
        let (rh, rl) = vals::<T>(r);
        let (wh, hs) = m.scalbn(hv, n, rm);
        let (wl, ls) = m.scalbn(lv, n, rm);
        c.transitions += 1;
        let ok = match hv {
            V::Nan { .. } => rh.is_nan(),
            V::Inf(_) | V::Zero(_) => rh == hv,
            _ if !lv.is_finite() => true,
            // both scaled halves are representable
            _ if hs == 0 && ls == 0 => same_pair::<T>(r.to_bits(), (wh, wl)),
            _ if rm == Rm::Ne && wh.is_inf() => rh == wh && rl.is_zero(),
            _ if rm == Rm::Ne => rh == wh && rl == wl || rl.is_zero() && wl.is_zero(),
            _ => true,
        };
        if !ok {
            return c.fail(format!("{} scalbn_r({}, {}) {:?} = {}, expected ({:?}, {:?})", T::NAME, showp::<T>(bits), n, rm, showp::<T>(r.to_bits()), wh, wl));
        }
    }
}

fn scaling<T: Dd>(c: &mut Ctx, bits: u128, hv: V, lv: V) {
    let m = cm::<T>();
    let x = T::F::from_bits(bits);
    let (h, _) = halves::<T>(bits);
    let hi = <T::C as Sub>::F::from_bits(h);
    c.at(&"ilogb", bits, 0, 0, 0);
    let (g, w) = (x.ilogb(), hi.ilogb());
    c.transitions += 1;
    if g != w || m.ilogb(hv).is_some_and(|e| e != g) {
        return c.fail(format!("{} ilogb({}) = {}, of the high half {}", T::NAME, showp::<T>(bits), g, w));
    }
    let span = m.emax - m.elsb();
    for n in [0, 1, -1, 2, -3, m.p as i32, -(m.p as i32), span / 2, -span / 2, span, -span, span + 1, i32::MAX, i32::MIN, 2 * span, -2 * span] {
        scale_by::<T>(c, bits, n);
        if c.failed() {
            return;
        }
    }
    for rm in RMS {
        c.at(&"frexp_r", bits, 0, 0, rm as u64);
        let mut e = 77;
        let r = x.frexp_r(&mut e, rnd(rm));
        let (rh, _) = vals::<T>(r);
        c.transitions += 1;
        let ok = match hv {
            V::Nan { .. } => rh.is_nan() && e == w,
            V::Inf(_) => rh == hv && e == w,
            V::Zero(_) => rh == hv && e == 0,
            _ => {
                let (wh, _) = m.scalbn(hv, -(w + 1), rm);
                let (wl, ls) = m.scalbn(lv, -(w + 1), rm);
                // a high half that is not a value just below 1/2 keeps all its bits
                e == w + 1 && (!lv.is_finite() || rh == wh && (ls != 0 && rm != Rm::Ne || same_pair::<T>(r.to_bits(), (wh, wl))))
            }
        };
        if !ok {
            return c.fail(format!("{} frexp_r({}) {:?} = {}, exponent {}", T::NAME, showp::<T>(bits), rm, showp::<T>(r.to_bits()), e));
        }
    }
}

/// Printing: digits of the 2p-bit value, which read back.
fn print<T: Dd>(c: &mut Ctx, bits: u128, v: Option<V>, rich: bool) {
    let fb = &T::FB;
    let x = T::F::from_bits(bits);
    let natural = 2 + fb.p as usize * 59 / 196;
    let mut s = String::new();
    let precs: &[Option<usize>] = if rich { &[None, Some(1), Some(2), Some(5), Some(40)] } else { &[None] };
    for &p in precs {
        for (w, alt) in [(3usize, false), (0, true)] {
            if !rich && alt {
                continue;
            }
            s.clear();
            c.at(&"Display", bits, p.map_or(!0, |p| p as u128), w as u128, alt as u64);
            let _ = match (p, alt) {
                (None, false) => write!(s, "{}", x),
                (Some(p), false) => write!(s, "{:.p$}", x),
                (None, true) => write!(s, "{:#w$}", x),
                (Some(p), true) => write!(s, "{:#w$.p$}", x),
            };
            c.transitions += 1;
            let Some(v) = v else { continue };
            let n = p.unwrap_or(natural);
            let bad = |why: &str| format!("{} precision {:?} width {} of {} prints {}: {}", T::NAME, p, w, showp::<T>(bits), clip(&s), why);
            let V::Fin { neg, m: sig, e } = v else {
                let want = match v {
                    V::Inf(n) => (if n { "-Inf" } else { "+Inf" }).to_string(),
                    V::Nan { .. } => "NaN".into(),
                    _ if w > 0 => (if v.neg() { "-0" } else { "0" }).to_string(),
                    _ => continue,
                };
                if s != want {
                    return c.fail(bad(&want));
                }
                continue;
            };
            let (d, k) = expand(sig, e);
            let d: Vec<u8> = d.iter().map(|b| b - b'0').collect();
            let Some(pr) = unprint(&s) else { return c.fail(bad("not a decimal number")) };
            let got: Vec<u8> = pr.digits.iter().map(|b| b - b'0').collect();
            let eq = |t: &[u8], tk: i64| {
                pr.exp >= tk && got.len() as i64 + pr.exp == t.len() as i64 + tk && got.len() <= t.len() && t[..got.len()] == got[..] && t[got.len()..].iter().all(|&z| z == 0)
            };
            let ok = if d.len() <= n {
                eq(&d, k as i64)
            } else {
                let tk = k as i64 + (d.len() - n) as i64;
                eq(&d[..n], tk) || eq(&succ_digits(&d[..n]), tk)
            };
            if !ok || pr.neg != neg || got.len() > n {
                return c.fail(bad("wrong digits"));
            }
            if s != layout(neg, &pr.digits, pr.exp, n, w, alt) {
                return c.fail(bad("not the documented layout"));
            }
            // read back
            if p.is_none() {
                c.at_text(&"from_str_r", &s, 0);
                let r = T::F::from_str_r(&s, Round::NearestTiesToEven);
                c.transitions += 1;
                match r {
                    Ok(r) if same_pair::<T>(r.value.to_bits(), split::<T>(v)) => {}
                    Ok(r) => return c.fail(bad(&format!("reads back as {}", showp::<T>(r.value.to_bits())))),
                    Err(_) => return c.fail(bad("does not read back")),
                }
            }
            c.outcome(s.bytes().fold(0u128, |h, b| h.wrapping_mul(131).wrapping_add(b as u128)));
        }
    }
}

fn from_int<T: Dd>(c: &mut Ctx, n: u128) {
    c.states += 1;
    for signed in [false, true] {
        let op: &'static &'static str = if signed { &"from_i128_r" } else { &"from_u128_r" };
        let neg = signed && (n as i128) < 0;
        let mag = if neg { n.wrapping_neg() } else { n };
        for rm in RMS {
            c.at(op, n, 0, 0, rm as u64);
            let r = if signed { T::F::from_i128_r(n as i128, rnd(rm)) } else { T::F::from_u128_r(n, rnd(rm)) };
            let want = T::FB.round(neg, mag, 0, false, rm);
            if !check_fb::<T>(c, op, &[], rm, r, want) {
                return c.fail(format!("integer {n:#x}"));
            }
        }
    }
    c.traces += 1;
}

/// A literal in all modes.
fn text<T: Dd>(c: &mut Ctx, s: &str) {
    c.states += 1;
    let lit = parse(s);
    for rm in RMS {
        c.at_text(&"from_str_r", s, rm as u64);
        let got = T::F::from_str_r(s, rnd(rm));
        match (&lit, got) {
            (None, Err(_)) => c.transitions += 1,
            (Some(l), Ok(r)) => {
                let want = T::FB.lit(l, rm);
                // the sign of a NaN is kept
                if want.0.is_nan() {
                    c.transitions += 1;
                    if !r.value.is_nan() || r.value.is_negative() != want.0.neg() {
                        return c.fail(format!("{} from_str_r({:?}) = {}", T::NAME, s, showp::<T>(r.value.to_bits())));
                    }
                } else if !check_fb::<T>(c, "from_str_r", &[], rm, r, want) {
                    return c.fail(format!("literal {s:?}"));
                }
            }
            (l, g) => return c.fail(format!("{} from_str_r({:?}) is_ok={}, expected {}", T::NAME, s, g.is_ok(), l.is_some())),
        }
    }
    c.traces += 1;
    c.sample(|| format!("{} literal {:?} as in {}-bit arithmetic", T::NAME, clip(s), T::FB.p));
}
/// Literals at and around a 2p-bit value and the midpoint above it.
fn texts<T: Dd>(c: &mut Ctx, v: V) {
    let V::Fin { neg, m: s, e } = v else { return };
    let sg = if neg { "-" } else { "" };
    for (s, e) in [(s, e), (2 * s + 1, e - 1)] {
        let (d, k) = expand(s, e);
        let d: Vec<u8> = d.iter().map(|b| b - b'0').collect();
        for t in [d.clone(), pred_digits(&d), succ_digits(&d)] {
            let t: String = t.iter().map(|d| (b'0' + d) as char).collect();
            text::<T>(c, &format!("{sg}{t}e{k}"));
            if c.failed() {
                return;
            }
        }
        text::<T>(c, &format!("{sg}0x{s:x}p{e}"));
        text::<T>(c, &format!("{sg}0x{s:x}.08p{e}"));
        if c.failed() {
            return;
        }
    }
}

fn triples<T: Dd, I: Int>(k: &mut Check, v: Vec<u128>) {
    let v: Vec<Val<I>> = v.into_iter().map(|b| val::<T, I>(b)).collect();
    k.job(format!("fma {}", T::NAME), true, format!("all triples of {} canonical pairs", v.len()), v.len() as u64, move |i, c| {
        let a = &v[i as usize];
        for b in &v {
            for d in &v {
                fb3::<T, I>(c, a, b, d, &RMS);
                if c.failed() {
                    return;
                }
            }
        }
    });
}
/// No operation panics, whatever the halves.
fn total<T: Dd>(c: &mut Ctx, a: u128, b: u128, third: &[u128]) {
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    c.states += 1;
    macro_rules! go {
        ($op:literal, $rm:expr, $e:expr) => {{
            c.at(&$op, a, b, 0, $rm as u64);
            c.transitions += 1;
            $e
        }};
    }
    for rm in RMS {
        let r = rnd(rm);
        let s = go!("add_r", rm, x.add_r(y, r)).value;
        let d = go!("sub_r", rm, x.sub_r(y, r)).value;
        let p = go!("mul_r", rm, x.mul_r(y, r)).value;
        let q = go!("div_r", rm, x.div_r(y, r)).value;
        // NaN results come from NaN or invalid operands only when the operands are canonical;
        // here only the class of the high half is looked at
        if x.is_nan() || y.is_nan() {
            for (o, v) in [("add_r", s), ("sub_r", d), ("mul_r", p), ("div_r", q)] {
                if !v.is_nan() {
                    return c.fail(format!("{} {o}({}, {}) {:?} = {}", T::NAME, showp::<T>(a), showp::<T>(b), rm, showp::<T>(v.to_bits())));
                }
            }
        }
        for &z in third {
            let _ = go!("mul_add_r", rm, x.mul_add_r(y, T::F::from_bits(z), r));
        }
    }
    let _ = go!("ieee_rem", Rm::Ne, x.ieee_rem(y));
    let _ = go!("c_fmod", Rm::Ne, x.c_fmod(y));
    let _ = go!("min", Rm::Ne, x.min(y));
    let _ = go!("maximum", Rm::Ne, x.maximum(y));
    let _ = go!("cmp", Rm::Ne, x.partial_cmp(&y));
    c.traces += 1;
}

/// Halves of every class.
fn some_halves(m: &Fmt, n: usize) -> Vec<u128> {
    let mut v = thin((0..1u128 << (m.bits - 1)).collect(), n);
    let top = m.exp_mask() << (m.sig_bits());
    v.extend([1, 2, top, top - 1, top - 2, top | 1, top | m.quiet_bit(), 1 << m.sig_bits(), (1 << m.sig_bits()) - 1]);
    let neg: Vec<u128> = v.iter().map(|b| b | m.sign_bit()).collect();
    v.extend(neg);
    v.sort();
    v.dedup();
    v
}
fn totals<T: Dd>(k: &mut Check, v: Vec<u128>) {
    let m = cm::<T>();
    let n = v.len();
    let pairs: Arc<Vec<u128>> = Arc::new(v.iter().flat_map(|&h| v.iter().map(move |&l| h | l << m.bits)).collect());
    let third = thin(pairs.to_vec(), 3);
    k.job(format!("total {}", T::NAME), true, format!("all pairs over all pairs of {n} halves of every class"), pairs.len() as u64, move |i, c| {
        let a = pairs[i as usize];
        for &b in pairs.iter() {
            total::<T>(c, a, b, &third);
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C24");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    let all = usize::MAX;
    // 2p-bit arithmetic
    dd_pairs::<DD7, i128>(k, "fallback", "all", canon_bits::<DD7>(), q(700, all), |c, a, b| fb2::<DD7, i128>(c, a, b, &RMS));
    dd_pairs::<DD8, i128>(k, "fallback", "all", canon_bits::<DD8>(), q(60, 3000), |c, a, b| fb2::<DD8, i128>(c, a, b, &RMS));
    dd_pairs::<DD10, i128>(k, "fallback", "all", canon_bits::<DD10>(), q(8, 300), |c, a, b| fb2::<DD10, i128>(c, a, b, &RMS));
    let dv = dd_values::<DDouble>(q(4, 20), false);
    dd_pairs::<DDouble, Sum>(k, "fallback", "lattice", dv.clone(), q(30, 600), |c, a, b| fb2::<DDouble, Sum>(c, a, b, &RMS));
    triples::<DD7, i128>(k, thin(canon_bits::<DD7>(), q(120, 600)));
    triples::<DD10, i128>(k, thin(canon_bits::<DD10>(), q(60, 300)));
    triples::<DDouble, Sum>(k, thin(dv, q(60, 300)));
    // one operand
    let pairs_of = |b: u32| -> Vec<u128> { (0..1u128 << (2 * b)).collect() };
    each::<DD7>(k, "unary", "pairs of halves (all)", pairs_of(7), |c, a| unary::<DD7>(c, a, true));
    each::<DD8>(k, "unary", "pairs of halves (all)", pairs_of(8), |c, a| unary::<DD8>(c, a, false));
    each::<DD8>(k, "unary rich", "canonical pairs", canon_bits::<DD8>(), |c, a| unary::<DD8>(c, a, true));
    each::<DD10>(k, "unary", "canonical pairs", canon_bits::<DD10>(), |c, a| unary::<DD10>(c, a, true));
    if t {
        each::<DD9>(k, "unary", "pairs of halves (all)", pairs_of(9), |c, a| unary::<DD9>(c, a, true));
    }
    each::<DDouble>(k, "unary", "structured canonical pairs", dd_values::<DDouble>(q(8, 60), true), |c, a| unary::<DDouble>(c, a, true));
    let hv = values(&model::DOUBLE, q(1, 6), false);
    let hp: Vec<u128> = hv.iter().flat_map(|&h| hv.iter().map(move |&l| h | l << 64)).collect();
    each::<DDouble>(k, "unary any halves", "pairs of lattice halves, mostly not canonical", hp, |c, a| unary::<DDouble>(c, a, false));
    // integers
    each::<DD7>(k, "from integers", "integers", ints(12), from_int::<DD7>);
    each::<DD8>(k, "from integers", "integers", ints(12), from_int::<DD8>);
    each::<DD10>(k, "from integers", "integers", ints(13), from_int::<DD10>);
    each::<DDouble>(k, "from integers", "integers", ints(12), from_int::<DDouble>);
    // literals
    each::<DD7>(k, "literals", "canonical values, their exact decimals and hexadecimals, midpoints above and neighbours", canon_bits::<DD7>(), |c, a| texts::<DD7>(c, val::<DD7, i128>(a).fb));
    each::<DD10>(k, "literals", "canonical values, their exact decimals and hexadecimals, midpoints above and neighbours", thin(canon_bits::<DD10>(), q(20000, all)), |c, a| texts::<DD10>(c, val::<DD10, i128>(a).fb));
    each::<DDouble>(k, "literals", "canonical values, their exact decimals and hexadecimals, midpoints above and neighbours", dd_values::<DDouble>(q(1, 8), false), |c, a| texts::<DDouble>(c, val::<DDouble, Sum>(a).fb));
    let short: Vec<String> = shorts();
    for_dds(k, short);
    totals::<DD7>(k, some_halves(cm::<DD7>(), q(8, 20)));
    totals::<DD10>(k, some_halves(cm::<DD10>(), q(2, 12)));
    totals::<DDouble>(k, double_halves(t));
    dd_range_pairs::<DDouble, Sum>(k, "fallback", q(8, 80), |c, a, b| fb2::<DDouble, Sum>(c, a, b, &RMS));
    dd_range_pairs::<DDouble, Sum>(k, "fallback fma", q(6, 60), |c, a, b| {
        // the addend at the exponent of the product, near it, and at the operands' own
        let m = cm::<DDouble>();
        let be = |x: u128| (x >> 52 & m.exp_mask()) as i64;
        let e = be(a.bits) + be(b.bits) - 1023;
        let s = (a.bits ^ b.bits >> 3) as u64;
        for d in [e, e + 1, e - 106 + (s % 7) as i64, e + 106 - (s % 7) as i64, e - (s % 400) as i64, be(a.bits)] {
            fb3::<DDouble, Sum>(c, a, b, &val::<DDouble, Sum>(dd_pick::<DDouble>(d, s ^ d as u64)), &RMS);
        }
    });
    each::<DDouble>(k, "unary every exponent", "canonical pairs with the high half at every exponent", dd_range_values::<DDouble>(q(20, 100)), |c, a| unary::<DDouble>(c, a, false));
    each::<DDouble>(k, "literals every exponent", "canonical values, their exact decimals and hexadecimals, midpoints above and neighbours", dd_range_values::<DDouble>(q(1, 4)), |c, a| texts::<DDouble>(c, val::<DDouble, Sum>(a).fb));
    each::<DDouble>(k, "unary around integers", "canonical pairs, the high half at exponents -3..=130, the low half at every distance to 110", dd_grid_values::<DDouble>(q(1, 10)), |c, a| unary::<DDouble>(c, a, true));
    let n = q(1, 6) as u64;
    k.job("scaling DDouble by every n", true, format!("every n of -2400..=2400 x every exponent of the high half, {n} canonical pairs each"), 4801, move |i, c| {
        for j in 0..n * 2047 {
            scale_by::<DDouble>(c, dd_pick::<DDouble>((j / n) as i64, i << 14 | j), i as i32 - 2400);
            if c.failed() {
                return;
            }
        }
    });
    k.run()
}
fn double_halves(t: bool) -> Vec<u128> {
    let m = &model::DOUBLE;
    let top = m.exp_mask() << 52;
    let mut v: Vec<u128> = vec![0, 1, 1 << 52, (1 << 52) - 1, 1023 << 52, 970 << 52 | 1, 1023 << 52 | 0xfffff, top - 1, top, top | 1];
    if t {
        v.extend([top - 2, 2046 << 52, 1077 << 52 | 3, top | m.quiet_bit(), 53 << 52, 1993 << 52]);
    }
    v.iter().flat_map(|&b| [b, b | m.sign_bit()]).collect()
}
fn for_dds(k: &mut Check, short: Vec<String>) {
    fn one<T: Dd>(k: &mut Check, s: &[String]) {
        let s = s.to_vec();
        k.job(format!("short literals {}", T::NAME), true, format!("{} short literals, valid and not", s.len()), s.len().div_ceil(64) as u64, move |i, c| {
            for x in s.iter().skip(i as usize * 64).take(64) {
                text::<T>(c, x);
                if c.failed() {
                    return;
                }
            }
        });
    }
    one::<DD7>(k, &short);
    one::<DD10>(k, &short);
    one::<DDouble>(k, &short);
}
/// All strings up to a length over an alphabet, and specials.
fn shorts() -> Vec<String> {
    let mut v: Vec<String> = ["inf", "INFINITY", "-inf", "-INFINITY", "+Inf", "-Inf", "nan", "NaN", "-nan", "snan", "-sNaN", "nan123", "nan(0x12)", "Inf", "infinity", ""]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let abc = ['0', '1', '9', '.', 'e', '-', '+', 'x', 'p', 'f'];
    let mut level: Vec<String> = vec![String::new()];
    for _ in 0..4 {
        let mut next = vec![];
        for s in &level {
            for ch in abc {
                next.push(format!("{s}{ch}"));
            }
        }
        v.extend(next.iter().cloned());
        level = next;
    }
    v
}
/// All small integers, and structured ones at every bit length.
fn ints(small: u32) -> Vec<u128> {
    let mut v: Vec<u128> = (0..1u128 << small).collect();
    for w in small..=128 {
        let t = 1u128 << (w - 1);
        for k in 0..w {
            v.extend([t | 1 << k, t | mask(k), (mask(w)) ^ mask(k), t | 1 << k | 1]);
        }
        v.extend([t, t - 1, mask(w)]);
    }
    let n: Vec<u128> = v.iter().map(|x| x.wrapping_neg()).collect();
    v.extend(n);
    v.sort();
    v.dedup();
    v
}
