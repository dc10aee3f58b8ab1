//! C05: both remainders are exact.
use checks::*;
use rustc_apfloat::Float;

fn pair<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let m = &T::M;
    let (va, vb) = (m.decode(a), m.decode(b));
    if va.is_nan() || vb.is_nan() {
        return;
    }
    c.states += 1;
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    for ieee in [false, true] {
        let op: &'static &'static str = if ieee { &"ieee_rem" } else { &"c_fmod" };
        c.at(op, a, b, 0, 0);
        let r = if ieee { x.ieee_rem(y) } else { x.c_fmod(y) };
        let (want, ws) = m.rem(va, vb, ieee);
        let (got, gs) = (r.value.to_bits(), st(r.status));
        c.transitions += 1;
        if !same(m, got, want) || gs != ws {
            c.fail(format!(
                "{} {}({}, {}) = {} {}, expected {:?} {}",
                m.name, op, showv(m, a), showv(m, b), showv(m, got), show_st(gs), want, show_st(ws)
            ));
            return;
        }
        c.outcome(got ^ (m.bits as u128) << 100);
        c.traces += 1;
    }
    c.sample(|| format!("{} remainders of {} by {} agree", m.name, showv(m, a), showv(m, b)));
}

/// Pairs with bounded exponent distance (the implementation is linear in the distance).
fn near<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let m = &T::M;
    if let (Some(x), Some(y)) = (m.ilogb(m.decode(a)), m.ilogb(m.decode(b))) {
        if x - y > 300 {
            return;
        }
    }
    pair::<T>(c, a, b)
}

/// Quotients that are integers, half-integers and their neighbours, at several places of the range.
fn quotients<T: Sub>(k: &mut Check, step: usize) {
    let m = T::M;
    let p = m.p;
    let mut odd: Vec<u128> = vec![];
    for w in (1..=p).step_by(step) {
        for x in [mask(w), 1u128 << (w - 1) | 1, patterns()[4] >> 3 & mask(w) | 1 | 1 << (w - 1)] {
            odd.push(x);
        }
    }
    odd.sort();
    odd.dedup();
    let n = odd.len();
    let top = m.exp_mask() as i64;
    let bias = (top - 1) / 2;
    k.job(
        format!("quotients {}", m.name),
        true,
        format!("divisor d, quotient q over {n} odd integers of every width; x = q*d*2^s and its two neighbours, s in -2..=2p, at 5 places of the range (subnormal to top binade)"),
        n as u64,
        move |i, c| {
            let d = odd[i as usize];
            for &q in &odd {
                let prod = if blen(q) + blen(d) <= 127 { q * d } else { continue };
                let (x, lost) = if blen(prod) > p as i32 {
                    // truncated (the neighbours then straddle the multiple)
                    let s = blen(prod) - p as i32;
                    (prod >> s as u32, s)
                } else {
                    (prod << (p as i32 - blen(prod)) as u32, blen(prod) - p as i32)
                };
                let dn = d << (p as i32 - blen(d)) as u32;
                // exponent difference between normalised x and dn for s = 0
                let base = lost as i64 + (p as i32 - blen(d)) as i64;
                for s in [-3i64, -2, -1, 0, 1, 2, p as i64 - 1, p as i64, 2 * p as i64] {
                    for ey in [1i64, 2, bias, bias - p as i64, top - 1 - p as i64, top - 1, top - 2] {
                        let ex = ey + base + s;
                        if ey < 1 || ey >= top {
                            continue;
                        }
                        for t in [x, x.wrapping_sub(1), x + 1] {
                            if ex >= 1 && ex < top && t >> (p - 1) == 1 {
                                pair::<T>(c, enc(&m, i & 1 != 0, ex as u128, t), enc(&m, q & 2 != 0, ey as u128, dn));
                            } else if ex < 1 && 1 - ex < p as i64 {
                                pair::<T>(c, enc_sub(&m, false, t >> (1 - ex) as u32), enc(&m, false, ey as u128, dn));
                            }
                        }
                        if c.failed() {
                            return;
                        }
                    }
                    // subnormal divisor
                    if d >> (p - 1) == 0 {
                        let sh = s + lost as i64;
                        for t in [x, x.wrapping_sub(1), x + 1] {
                            let ex = 1 + sh;
                            if ex >= 1 && ex < top && t >> (p - 1) == 1 {
                                pair::<T>(c, enc(&m, false, ex as u128, t), enc_sub(&m, true, d));
                            } else if ex < 1 && 1 - ex < p as i64 {
                                pair::<T>(c, enc_sub(&m, true, t >> (1 - ex) as u32), enc_sub(&m, false, d));
                            }
                        }
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

/// The longest exponent distances.
fn extremes<T: Sub>(k: &mut Check, nsig: usize) {
    let m = T::M;
    let sg = thin(few_sigs(m.p), nsig);
    let n = sg.len();
    let top = m.exp_mask();
    k.job(format!("extremes {}", m.name), true, format!("{n} significands at the top of the range by {n} at the bottom"), (n * n) as u64, move |i, c| {
        let (s, t) = (sg[i as usize / n], sg[i as usize % n]);
        let x = enc(&m, i & 1 != 0, top - 1, s);
        for y in [enc_sub(&m, false, 1), enc_sub(&m, false, 3), enc_sub(&m, true, t >> 2), enc(&m, false, 1, t)] {
            pair::<T>(c, x, y);
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C05");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    k.model_cross_checks = checks::host::check_pairs(&["rem"]);
    spaces!(all_pairs(k, "rem"; pair): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5);
    if t {
        spaces!(all_pairs(k, "rem"; pair): T12E5, T12E6, Half);
    }
    for_fmts!(quotients(k, 1): Half, BFloat, Single);
    for_fmts!(quotients(k, q(2, 1)): Double, X87, Quad);
    spaces!(lat_pairs(k, "rem", q(14, 60); pair): Half);
    spaces!(lat_pairs(k, "rem", q(8, 60); pair): BFloat, Single);
    spaces!(lat_pairs(k, "rem", q(6, 30); near): Double, X87, Quad);
    for_fmts!(extremes(k, 100): Double);
    for_fmts!(extremes(k, q(8, 100)): X87, Quad);
    spaces!(range_pairs(k, "rem", q(60, 200); pair): Half, BFloat, Single);
    spaces!(range_pairs(k, "rem", q(12, 60); pair): Double);
    spaces!(range_pairs(k, "rem", q(1, 4); pair): X87, Quad);
    k.run()
}
