//! C09: conversion between formats.
use checks::*;
use rustc_apfloat::{Float, FloatConvert};

fn one<A: Sub, B: Sub>(c: &mut Ctx, a: u128)
where
    A::F: FloatConvert<B::F>,
{
    let (s, d) = (&A::M, &B::M);
    let va = s.decode(a);
    let x = A::F::from_bits(a);
    c.states += 1;
    for rm in RMS {
        c.at(&"convert_r", a, d.bits as u128, d.p as u128, rm as u64);
        let mut loses = rm as u64 & 1 == 0;
        let r = FloatConvert::<B::F>::convert_r(x, rnd(rm), &mut loses);
        let (got, gs) = (r.value.to_bits(), st(r.status));
        c.transitions += 1;
        let ok = match va {
            V::Nan { neg, .. } if s.unsupported(a) => {
                // Only the class, the sign and the loss are specified.
                let g = d.decode(got);
                g.is_nan() && g.neg() == neg && (d.x87 || loses)
            }
            V::Nan { neg, sig } => {
                let (w, ws, wl) = s.convert_nan(d, neg, sig);
                let g = d.decode(got);
                let ok = if s.nanonly {
                    g.is_nan() && !d.is_snan(g) && g.neg() == neg
                } else {
                    got == d.encode(w)
                };
                ok && gs == ws && loses == wl
            }
            _ => {
                let (w, ws, wl) = s.convert(d, va, rm);
                got == d.encode(w) && gs == ws && loses == wl
            }
        };
        if !ok {
            let want = match va {
                V::Nan { .. } if s.unsupported(a) => format!("a NaN{}", if d.x87 { "" } else { ", loses_info" }),
                V::Nan { neg, sig } => format!("{:?}", s.convert_nan(d, neg, sig)),
                _ => format!("{:?}", s.convert(d, va, rm)),
            };
            return c.fail(format!(
                "{} to {}: convert_r({}) {:?} = {} {} loses_info={}, expected (value, status, loses_info) {}",
                s.name, d.name, showv(s, a), rm, showv(d, got), show_st(gs), loses, want
            ));
        }
        c.outcome(got ^ (gs as u128) << 120 ^ (d.bits as u128) << 112);
    }
    c.traces += 1;
    c.sample(|| format!("{} to {} of {} agrees in 5 modes", s.name, d.name, showv(s, a)));
}

fn space<A: Sub, B: Sub>(k: &mut Check)
where
    A::F: FloatConvert<B::F>,
{
    let (s, d) = (A::M, B::M);
    let tag = format!("to {}:", d.name);
    if s.bits <= 16 {
        return all_values::<A>(k, &tag, one::<A, B>);
    }
    let t = k.thorough();
    lat_values::<A>(k, &tag, if t { 1000 } else { 100 }, one::<A, B>);
    // Every cut of the significand around the thresholds of the target.
    let mut sg = cut_sigs(s.p);
    sg.extend(sigs(s.p, 1));
    sg.sort();
    sg.dedup();
    let p = d.p as i32;
    let mut ex: Vec<i32> = vec![-1, 0, 1];
    ex.extend(d.emin - p - 3..=d.emin + 3);
    ex.extend([d.emax - 2, d.emax - 1, d.emax, d.emax + 1, d.emax + 2]);
    ex.extend([s.emin, s.emin + 1, s.emax, s.emax - 1]);
    ex.retain(|&e| e >= s.emin && e <= s.emax);
    ex.sort();
    ex.dedup();
    if !t && ex.len() * sg.len() > 100_000 {
        // thin out the middle of the target's subnormal range
        ex = ex.iter().enumerate().filter(|&(i, &e)| i % 4 == 0 || (e - d.emin).abs() < 5 || (e - d.emin + p).abs() < 5 || e > d.emin).map(|x| *x.1).collect();
    }
    let n = sg.len();
    let m = s;
    k.job(
        format!("{} thresholds {}", tag, s.name),
        true,
        format!("{n} significands (every cut position x half bit x tail) x {} exponents around the target's thresholds x both signs; source subnormals", ex.len()),
        n as u64,
        move |i, c| {
            let x = sg[i as usize];
            for &e in &ex {
                let be = (e - m.emin + 1) as u128;
                one::<A, B>(c, enc(&m, false, be, x));
                one::<A, B>(c, enc(&m, true, be, x));
                if c.failed() {
                    return;
                }
            }
            for sh in [1, 2, m.p / 2, m.p - 8, m.p - 3, m.p - 1] {
                one::<A, B>(c, enc_sub(&m, i & 1 != 0, x >> sh));
            }
        },
    );
    let sg: Vec<u128> = few_sigs(s.p).into_iter().step_by(if t { 1 } else { 4 }).collect();
    every_exponent::<A>(k, &tag, sg, one::<A, B>);
    if s.bits > 16 {
        nans::<A, B>(k, &tag);
        let top = s.exp_mask() as u64;
        let n = (if t { 2_000_000 } else { 400_000 }) / top;
        k.job(format!("{tag} picked {}", s.name), true, format!("{n} significands of every shape at every exponent"), top, move |be, c| {
            for j in 0..n {
                one::<A, B>(c, pick(&s, be as i64, be << 20 | j));
                if c.failed() {
                    return;
                }
            }
        });
    }
}

/// Every single payload bit, runs of payload bits, both signs, quiet and signaling.
fn nans<A: Sub, B: Sub>(k: &mut Check, tag: &str)
where
    A::F: FloatConvert<B::F>,
{
    let mut v = nan_payloads(&A::M);
    v.extend((0..if k.thorough() { 1_000_000 } else { 30_000 }).map(|s| pick_nan(&A::M, s)));
    k.job(format!("{tag} NaNs {}", A::M.name), true, format!("{} NaNs", v.len()), 1, move |_, c| {
        for &a in &v {
            one::<A, B>(c, a);
        }
    });
}

fn exhaustive<A: Sub, B: Sub>(k: &mut Check)
where
    A::F: FloatConvert<B::F>,
{
    all_values::<A>(k, &format!("to {}:", B::M.name), one::<A, B>);
}

fn main() {
    let k = &mut Check::new("C09");
    for_pairs!(space(k): [E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad, T7E4, N7E3, T9E4, N9E4] x [E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad, T7E4, N7E3, T8E3, T10E5, N10E5]);
    if k.thorough() {
        for_pairs!(exhaustive(k): [Single] x [Half, BFloat, E5M2, E4M3FN, Double]);
    }
    k.run()
}
