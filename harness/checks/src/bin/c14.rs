//! C14: scaling, exponent query, fraction/exponent decomposition, exact inverse.
use checks::*;
use rustc_apfloat::{Float, IEK_INF, IEK_NAN, IEK_ZERO};

fn scal<T: Sub>(c: &mut Ctx, a: u128, n: i32) {
    let m = &T::M;
    let v = m.decode(a);
    let x = T::F::from_bits(a);
    c.states += 1;
    for rm in RMS {
        c.at(&"scalbn_r", a, n as u32 as u128, 0, rm as u64);
        let got = x.scalbn_r(n, rnd(rm)).to_bits();
        let (want, _) = m.scalbn(v, n, rm);
        c.transitions += 1;
        let ok = match v {
            V::Nan { .. } if m.unsupported(a) => m.decode(got).is_nan(),
            V::Nan { .. } => got == m.encode(quiet(m, v)),
            _ => same(m, got, want),
        };
        if !ok {
            return c.fail(format!("{} scalbn_r({}, {}) {:?} = {}, expected {:?}", m.name, showv(m, a), n, rm, showv(m, got), want));
        }
        c.outcome(got ^ (m.bits as u128) << 112);
    }
    c.traces += 1;
}

fn unary<T: Sub>(c: &mut Ctx, a: u128) {
    let m = &T::M;
    let v = m.decode(a);
    let x = T::F::from_bits(a);
    c.states += 1;
    c.at(&"ilogb", a, 0, 0, 0);
    let l = x.ilogb();
    let want = match v {
        V::Nan { .. } => IEK_NAN,
        V::Inf(_) => IEK_INF,
        V::Zero(_) => IEK_ZERO,
        _ => m.ilogb(v).unwrap(),
    };
    c.transitions += 1;
    if l != want {
        return c.fail(format!("{} ilogb({}) = {}, expected {}", m.name, showv(m, a), l, want));
    }
    for rm in RMS {
        let mut e = 12345;
        c.at(&"frexp_r", a, 0, 0, rm as u64);
        let f = x.frexp_r(&mut e, rnd(rm)).to_bits();
        c.transitions += 1;
        let ok = match v {
            V::Nan { .. } if m.unsupported(a) => m.decode(f).is_nan() && e == IEK_NAN,
            V::Nan { .. } => f == m.encode(quiet(m, v)) && e == IEK_NAN,
            V::Inf(_) => f == a && e == IEK_INF,
            V::Zero(_) => f == a && e == 0,
            V::Fin { neg, m: s, .. } => {
                // f = significand scaled to [1/2, 1)
                let w = m.round(neg, s, -blen(s), false, Rm::Ne);
                w.1 == 0 && f == m.encode(w.0) && e == want + 1
            }
        };
        if !ok {
            return c.fail(format!("{} frexp_r({}) {:?} = {}, exponent {}", m.name, showv(m, a), rm, showv(m, f), e));
        }
    }
    c.at(&"get_exact_inverse", a, 0, 0, 0);
    let inv = x.get_exact_inverse().map(|r| r.to_bits());
    let winv = match v {
        V::Fin { neg, m: s, .. } if s == 1 << (m.p - 1) => {
            let (r, ex) = m.round(neg, 1, -want, false, Rm::Ne);
            if ex == 0 && r.is_fin_nz() && !m.subnormal(r) {
                Some(m.encode(r))
            } else {
                None
            }
        }
        _ => None,
    };
    c.transitions += 1;
    if inv != winv {
        return c.fail(format!("{} get_exact_inverse({}) = {:x?}, expected {:x?}", m.name, showv(m, a), inv, winv));
    }
    c.traces += 3;
    c.outcome(want as u32 as u128 | (inv.is_some() as u128) << 64);
    c.sample(|| format!("{} ilogb({}) = {}", m.name, showv(m, a), want));
}

fn shifts(m: &Fmt, a: u128) -> Vec<i32> {
    let span = m.emax - m.elsb();
    let p = m.p as i32;
    let mut v: Vec<i64> = vec![i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64, i32::MAX as i64 - 1, 0, 1, -1];
    for b in [span, span + 1, span + 2, span + 3, span - 1, span - 2, 2 * span, 32767, 32768, 65536, 1 << 20, 1 << 30] {
        v.extend([b as i64, -b as i64]);
    }
    // around the thresholds for this value
    if let Some(l) = m.ilogb(m.decode(a)) {
        for t in [m.emin, m.emax, 0] {
            for d in -3..=3 {
                v.push((t - l + d) as i64);
            }
        }
        for d in 0..=p + 3 {
            v.push((m.emin - l - d) as i64);
        }
    }
    v.retain(|&x| x >= i32::MIN as i64 && x <= i32::MAX as i64);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as i32).collect()
}
fn scal_here<T: Sub>(c: &mut Ctx, a: u128) {
    for n in shifts(&T::M, a) {
        scal::<T>(c, a, n);
        if c.failed() {
            return;
        }
    }
}

/// Every value and every shift of a small format.
fn all<T: Sub>(k: &mut Check) {
    let m = T::M;
    let span = m.emax - m.elsb() + 6;
    k.job(format!("scalbn {}", m.name), true, format!("every value x every exponent -{span}..={span} and the extremes"), 1 << m.bits.min(16), move |a, c| {
        for n in -span..=span {
            scal::<T>(c, a as u128, n);
            if c.failed() {
                return;
            }
        }
        scal_here::<T>(c, a as u128);
    });
}

/// Every pair of exponent and shift of a wide format, one significand of `pick` each; in the 15-bit exponents, every
/// exponent and every shift against `n` of the other.
fn grid<T: Sub>(k: &mut Check, n: u64) {
    let m = T::M;
    let top = m.exp_mask() as u64;
    let span = (m.emax - m.elsb() + 6) as u64;
    if top < 4096 {
        k.job(format!("scalbn exponents x shifts {}", m.name), true, format!("every exponent x every shift -{span}..={span}, one significand each"), top, move |be, c| {
            for j in 0..=2 * span {
                scal::<T>(c, pick(&m, be as i64, be << 20 | j), j as i32 - span as i32);
                if c.failed() {
                    return;
                }
            }
        });
        return;
    }
    k.job(format!("scalbn exponents x shifts {}", m.name), true, format!("every exponent x {n} shifts and every shift of -{span}..={span} x {n} exponents"), top + 2 * span + 1, move |i, c| {
        for r in 0..n {
            let h = scramble(i << 20 | r) as u64 >> 8;
            // half of them at or near the thresholds
            let (be, j) = if i < top {
                let out = [0i64, top as i64 - 1][(h >> 40) as usize & 1];
                (i as i64, if r & 1 == 0 { h as i64 % (2 * span as i64 + 1) - span as i64 } else { out - i as i64 - h as i64 % (m.p as i64 + 4) })
            } else {
                let j = (i - top) as i64 - span as i64;
                let u = (h % top) as i64;
                (if r & 1 == 0 { u } else { u % (top as i64 - j.abs()).max(1) + (-j).max(0).min(top as i64 - 1) }.min(top as i64 - 1), j)
            };
            scal::<T>(c, pick(&m, be, i << 20 | r), j as i32);
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C14");
    let t = k.thorough();
    for_fmts!(all(k): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, T8E3, T8E4, E5M2, E4M3FN, T9E4, N9E4, T10E5, N10E5, T11E5);
    if t {
        for_fmts!(all(k): T12E5, T12E6, Half, BFloat);
    }
    spaces!(all_values(k, "scalbn thresholds"; scal_here): Half, BFloat);
    spaces!(lat_values(k, "scalbn", if t { 400 } else { 40 }; scal_here): Single, Double, X87, Quad);
    spaces!(all_values(k, "unary"; unary): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5, T12E5, T12E6, Half, BFloat);
    for_fmts!(grid(k, if t { 5000 } else { 400 }): Single, Double, X87, Quad);
    spaces!(lat_values(k, "unary", 2000; unary): Single, Double, X87, Quad);
    every_exponent::<Single>(k, "unary", sigs(24, 1), unary::<Single>);
    every_exponent::<Double>(k, "unary", sigs(53, 2), unary::<Double>);
    every_exponent::<X87>(k, "unary", few_sigs(64), unary::<X87>);
    every_exponent::<Quad>(k, "unary", few_sigs(113), unary::<Quad>);
    // every subnormal width
    for_fmts!(subnormals(k): Single, Double, X87, Quad);
    if t {
        spaces!(all_values(k, "unary"; unary): Single);
    }
    k.run()
}
fn subnormals<T: Sub>(k: &mut Check) {
    let m = T::M;
    k.job(format!("subnormals {}", m.name), true, "subnormals of every width: lowest, highest and patterned significand", m.p as u64 - 1, move |i, c| {
        let w = i as u32 + 1;
        let top = 1u128 << (w - 1);
        for s in [top, mask(w), top | 1, top | patterns()[4] & mask(w), top | patterns()[1] & mask(w)] {
            for neg in [false, true] {
                unary::<T>(c, enc_sub(&m, neg, s));
                scal_here::<T>(c, enc_sub(&m, neg, s));
            }
        }
    });
}
