//! C18: printing decimals.
use checks::*;
use model::text::{expand, layout, succ_digits, unprint};
use rustc_apfloat::Float;
use std::fmt::Write;

/// Exact digits of a value, cached per value.
struct Exact {
    neg: bool,
    d: Vec<u8>, // digit values
    k: i64,
}

/// One format call. `p`/`w`: None = not given.
fn put<F: Float>(buf: &mut String, x: F, p: Option<usize>, w: Option<usize>, alt: bool) {
    buf.clear();
    let _ = match (p, w, alt) {
        (None, None, false) => write!(buf, "{}", x),
        (None, None, true) => write!(buf, "{:#}", x),
        (Some(p), None, false) => write!(buf, "{:.p$}", x),
        (Some(p), None, true) => write!(buf, "{:#.p$}", x),
        (None, Some(w), false) => write!(buf, "{:w$}", x),
        (None, Some(w), true) => write!(buf, "{:#w$}", x),
        (Some(p), Some(w), false) => write!(buf, "{:w$.p$}", x),
        (Some(p), Some(w), true) => write!(buf, "{:#w$.p$}", x),
    };
}

fn special(v: V, p: Option<usize>, w: Option<usize>, alt: bool) -> Option<String> {
    match v {
        V::Nan { .. } => Some("NaN".into()),
        V::Inf(n) => Some(if n { "-Inf" } else { "+Inf" }.into()),
        V::Zero(n) => {
            let s = if n { "-" } else { "" };
            Some(if w == Some(0) {
                if alt {
                    format!("{s}0.0{}e+00", "0".repeat(p.unwrap_or(0).saturating_sub(1)))
                } else {
                    format!("{s}0.0E+0")
                }
            } else {
                format!("{s}0")
            })
        }
        _ => None,
    }
}

fn one_with<T: Sub>(c: &mut Ctx, a: u128, ps: &[Option<usize>], ws: &[Option<usize>]) {
    one_in::<T>(c, a, ps, ws, &[false, true])
}
fn one_in<T: Sub>(c: &mut Ctx, a: u128, ps: &[Option<usize>], ws: &[Option<usize>], alts: &[bool]) {
    let m = &T::M;
    let v = m.decode(a);
    let x = T::F::from_bits(a);
    let exact = match v {
        V::Fin { neg, m, e } => {
            let (d, k) = expand(m, e);
            Some(Exact { neg, d: d.iter().map(|b| b - b'0').collect(), k: k as i64 })
        }
        _ => None,
    };
    let natural = 2 + m.p as usize * 59 / 196;
    let mut s = String::new();
    let mut prev = String::new();
    for &p in ps {
        // a precision of 0 stands for the natural precision, like an absent one
        let n = match p {
            None | Some(0) => natural,
            Some(n) => n,
        };
        prev.clear();
        for &w in ws {
            for &alt in alts {
                c.states += 1;
                c.at(&"Display", a, p.map_or(!0, |p| p as u128), w.map_or(!0, |w| w as u128), alt as u64);
                put(&mut s, x, p, w, alt);
                c.transitions += 1;
                let bad = |why: String| format!("{} precision {:?} width {:?} alternate {} of {} = {}: {}", m.name, p, w, alt, showv(m, a), clip(&s), why);
                let Some(ex) = &exact else {
                    let want = special(v, p, w, alt).unwrap();
                    if s != want {
                        return c.fail(bad(format!("expected {want:?}")));
                    }
                    continue;
                };
                let Some(pr) = unprint(&s) else { return c.fail(bad("not a decimal number".into())) };
                if pr.neg != ex.neg {
                    return c.fail(bad("wrong sign".into()));
                }
                let k = pr.exp;
                let got: Vec<u8> = pr.digits.iter().map(|b| b - b'0').collect();
                if ex.d.len() <= n {
                    if got != ex.d || k != ex.k {
                        return c.fail(bad(format!("exact value is {}e{}", clip(&ascii(&ex.d)), ex.k)));
                    }
                } else {
                    // the nearest n-digit decimal, a tie going away from zero
                    let t = &ex.d[..n];
                    let tk = ex.k + (ex.d.len() - n) as i64;
                    let eq = |t: &[u8]| {
                        // compare got * 10^k with t * 10^tk
                        k >= tk && got.len() as i64 + k == t.len() as i64 + tk && t[..got.len()] == got[..] && t[got.len()..].iter().all(|&z| z == 0)
                    };
                    let right = if ex.d[n] < 5 { eq(t) } else { eq(&succ_digits(t)) };
                    if !right {
                        return c.fail(bad(format!("exact value is {}e{}", clip(&ascii(&ex.d)), ex.k)));
                    }
                }
                if got.len() > n {
                    return c.fail(bad(format!("more than {n} digits")));
                }
                // the same digits at every width and in both forms
                let key = format!("{}e{}", ascii(&got), k);
                if prev.is_empty() {
                    prev = key;
                } else if prev != key {
                    return c.fail(bad(format!("digits depend on the width or the form ({prev})")));
                }
                let want = layout(ex.neg, &pr.digits, k, n, w.unwrap_or(3), alt);
                if s != want {
                    return c.fail(bad(format!("documented layout is {}", clip(&want))));
                }
                c.outcome(s.bytes().fold(0u128, |h, b| h.wrapping_mul(131).wrapping_add(b as u128)));
            }
        }
        c.traces += 1;
    }
    c.sample(|| format!("{} {} prints as {}", m.name, showv(m, a), clip(&s)));
}
fn ascii(d: &[u8]) -> String {
    d.iter().map(|x| (x + b'0') as char).collect()
}

const fn o(x: usize) -> Option<usize> {
    Some(x)
}

/// All small precisions and widths.
fn full<T: Sub>(c: &mut Ctx, a: u128) {
    static PS: &[Option<usize>] = &[None, o(0), o(1), o(2), o(3), o(4), o(5), o(6), o(7), o(8), o(9), o(10), o(11), o(12), o(15), o(20), o(40), o(400)];
    static WS: &[Option<usize>] = &[None, o(0), o(1), o(2), o(3), o(4), o(5), o(6), o(7), o(8), o(9), o(10), o(20), o(100)];
    one_with::<T>(c, a, PS, WS);
}
fn medium<T: Sub>(c: &mut Ctx, a: u128) {
    let t = c.tier == Tier::Thorough;
    static PS: &[Option<usize>] = &[None, o(1), o(3), o(5), o(17), o(200)];
    static WS: &[Option<usize>] = &[None, o(0), o(2), o(5), o(40)];
    if t || a % 16 == 5 {
        full::<T>(c, a);
    } else {
        one_with::<T>(c, a, PS, WS);
    }
}
fn large<T: Sub>(c: &mut Ctx, a: u128) {
    static PS: &[Option<usize>] = &[None, o(0), o(1), o(2), o(3), o(4), o(5), o(7), o(9), o(10), o(16), o(17), o(18), o(20), o(21), o(22), o(35), o(36), o(37), o(60), o(120), o(800)];
    static WS: &[Option<usize>] = &[None, o(0), o(1), o(3), o(10), o(25), o(330)];
    one_with::<T>(c, a, PS, WS);
}
fn sparse<T: Sub>(c: &mut Ctx, a: u128) {
    static PS: &[Option<usize>] = &[None, o(0), o(1), o(2), o(6), o(17), o(36), o(100)];
    static WS: &[Option<usize>] = &[None, o(0), o(12)];
    one_with::<T>(c, a, PS, WS);
}
fn rare<T: Sub>(c: &mut Ctx, a: u128) {
    if c.tier == Tier::Thorough {
        return sparse::<T>(c, a);
    }
    static PS: &[Option<usize>] = &[None, o(0), o(1), o(35)];
    static WS: &[Option<usize>] = &[None, o(0)];
    one_with::<T>(c, a, PS, WS);
}

/// Values m * 10^j and their neighbours: trailing zeros, carries (999...), layout limits.
fn round_numbers<T: Sub>(k: &mut Check) {
    let m = T::M;
    let hi = (m.emax as i64 + 1) * 30103 / 100000;
    let lo = m.elsb() as i64 * 30103 / 100000;
    let mut pos: Vec<i64> = (lo.max(-45)..=hi.min(45)).collect();
    pos.extend([lo, lo + 1, lo / 2, hi, hi - 1, hi / 2]);
    k.job(
        format!("round numbers {}", m.name),
        true,
        "the format's values nearest to D * 10^j for D of 1-6 digits around powers of ten and their encoding neighbours",
        pos.len() as u64,
        move |i, c| {
            let j = pos[i as usize];
            for d in ["1", "2", "5", "9", "10", "11", "95", "99", "101", "949", "995", "999", "1001", "9994", "9995", "9999", "12345", "99999", "100001", "999999", "65536"] {
                let dg: Vec<u8> = d.bytes().map(|b| b - b'0').collect();
                let far = !(-60..60).contains(&j) && m.p >= 64;
                if far && c.tier == Tier::Quick && ![1, 3].contains(&d.len()) {
                    continue;
                }
                let (mut s, mut kk) = (&dg[..], j);
                while s.last() == Some(&0) {
                    s = &s[..s.len() - 1];
                    kk += 1;
                }
                let v = m.dec(d.len() % 2 == 0, s, kk, Rm::Ne).0;
                if !v.is_fin_nz() {
                    continue;
                }
                let b = m.encode(v);
                for x in [b, b + 1, b - 1] {
                    if m.decode(x).is_finite() && m.encode(m.decode(x)) == x {
                        if far { rare::<T>(c, x) } else { large::<T>(c, x) }
                    }
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

/// Every precision up to and beyond the full length of long expansions.
fn all_precisions<T: Sub>(k: &mut Check, exps: Vec<i64>, top: usize) {
    let m = T::M;
    let p = m.p;
    let mut vals = vec![];
    for &x in &exps {
        for s in [1 << (p - 1) | 1, mask(p), 0xb504f333f9de6484597d89b3754abe9fu128 >> (128 - p), 1 << (p - 1)] {
            vals.push(m.encode(m.round(false, s, (x - (p as i64 - 1)) as i32, false, Rm::Ne).0));
        }
    }
    k.job(
        format!("all precisions {}", m.name),
        true,
        format!("precisions 1..={top} (all) x {} values at {} binary exponents, plain and alternate", vals.len(), exps.len()),
        top as u64,
        move |i, c| {
            for &v in &vals {
                one_with::<T>(c, v, &[o(i as usize + 1)], &[None]);
                if c.failed() {
                    return;
                }
            }
        },
    );
}

fn natural<T: Sub>(c: &mut Ctx, a: u128) {
    // the precision and the form take turns from one value to the next
    let h = scramble(a as u64 ^ (a >> 64) as u64);
    let p = [None, o(0), None, o(0), o(1), o(2), o(17), o(30)][(h >> 40) as usize % 8];
    one_in::<T>(c, a, &[p], &[None], &[(h >> 50) % 3 == 0]);
}

/// Every width across the layout limits.
fn every_width<T: Sub>(k: &mut Check, top: usize) {
    let m = T::M;
    k.job(
        format!("every width {}", m.name),
        true,
        format!("widths 0..={top} (all) x the values nearest to D * 10^j, D of 1 to 13 digits, every j in -{top}..={top}, at precisions natural, 0, 1, 4, 17, 40"),
        2 * top as u64 + 1,
        move |i, c| {
            let ws: Vec<Option<usize>> = (0..=top).map(Some).collect();
            for (q, d) in ["7", "25", "999", "12345", "7654321", "1234567890123"].iter().enumerate() {
                let dg: Vec<u8> = d.bytes().map(|b| b - b'0').collect();
                let v = m.dec(q % 2 == 0, &dg, i as i64 - top as i64, Rm::Ne).0;
                if v.is_fin_nz() {
                    one_with::<T>(c, m.encode(v), &[None, o(0), o(1), o(4), o(17), o(40)], &ws);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

fn main() {
    let k = &mut Check::new("C18");
    let t = k.thorough();
    spaces!(all_values(k, "print"; full): T6E3, T7E3, T7E4, T8E3, T8E4, N6E3, N7E3, N8E3, N7E4, E5M2, E4M3FN, T9E4, N9E4, T10E4, T10E5, N10E5, T11E5, T12E5, T12E6);
    spaces!(all_values(k, "print"; medium): Half);
    spaces!(lat_values(k, "print", if t { 300 } else { 40 }; full): BFloat);
    if t {
        spaces!(all_values(k, "print"; medium): BFloat);
    }
    all_precisions::<Single>(k, vec![-126, -140, -60, 30, 127], 130);
    all_precisions::<Double>(k, if t { vec![-1022, -1050, -500, -200, -90, 100, 400, 700, 1023] } else { vec![-1022, -300, 1023] }, 780);
    all_precisions::<X87>(k, if t { vec![-3000, -1000, -400, -100, 100, 1500] } else { vec![-400, 300] }, if t { 1500 } else { 320 });
    all_precisions::<Quad>(k, if t { vec![-3000, -1000, -400, -100, 200, 1500] } else { vec![-400, 300] }, if t { 1500 } else { 320 });
    all_precisions::<BFloat>(k, vec![-126, -60, -101, 40, 127], 110);
    all_precisions::<Half>(k, vec![-14, -9, -1, 3, 15], 40);
    for_fmts!(every_width(k, if t { 120 } else { 45 }): BFloat, Single, Double, Quad);
    scrambled::<X87>(k, "print", if t { 4 } else { 1 }, natural::<X87>);
    scrambled::<Quad>(k, "print", if t { 4 } else { 1 }, natural::<Quad>);
    for_fmts!(round_numbers(k): Half, BFloat, Single, Double, X87, Quad);
    spaces!(lat_values(k, "print", if t { 200 } else { 20 }; large): Single);
    spaces!(lat_values(k, "print", if t { 100 } else { 6 }; large): Double);
    spaces!(lat_values(k, "print", if t { 20 } else { 1 }; rare): X87, Quad);
    every_exponent::<Single>(k, "print", few_sigs(24), sparse::<Single>);
    every_exponent::<Double>(k, "print", if t { few_sigs(53) } else { few_sigs(53).into_iter().skip(3).take(1).collect() }, sparse::<Double>);
    k.run()
}
