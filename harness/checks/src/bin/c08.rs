//! C08: integer to float conversion.
use checks::*;
use rustc_apfloat::Float;

fn one<T: Sub>(c: &mut Ctx, n: u128) {
    let m = &T::M;
    c.states += 1;
    for signed in [false, true] {
        let op: &'static &'static str = if signed { &"from_i128_r" } else { &"from_u128_r" };
        let neg = signed && (n as i128) < 0;
        let mag = if neg { n.wrapping_neg() } else { n };
        for rm in RMS {
            c.at(op, n, 0, 0, rm as u64);
            let r = if signed { T::F::from_i128_r(n as i128, rnd(rm)) } else { T::F::from_u128_r(n, rnd(rm)) };
            let (got, gs) = (r.value.to_bits(), st(r.status));
            let (want, ws) = m.round(neg, mag, 0, false, rm);
            c.transitions += 1;
            if !same(m, got, want) || gs != ws {
                return c.fail(format!(
                    "{} {}({:#x}) {:?} = {} {}, expected {:?} {}",
                    m.name, op, n, rm, showv(m, got), show_st(gs), want, show_st(ws)
                ));
            }
            c.outcome(got ^ (m.bits as u128) << 100);
        }
        c.traces += 1;
    }
    c.sample(|| format!("{} from integer {:#x} agrees in 5 modes", m.name, n));
}

fn small<T: Sub>(k: &mut Check, bits: u32) {
    let chunk = 1u128 << (bits - 8);
    k.job(format!("all integers below 2^{bits} and their negatives {}", T::M.name), true, format!("all integers in -2^{bits}..2^{bits}"), 512, move |i, c| {
        let lo = (i as i128 - 256) * chunk as i128;
        for n in lo..lo + chunk as i128 {
            one::<T>(c, n as u128);
            if c.failed() {
                return;
            }
        }
    });
}

/// Leading bits, half bit and tail at every bit length.
fn shapes<T: Sub>(k: &mut Check) {
    let p = T::M.p;
    let mut sg = vec![];
    if p <= 11 {
        sg.extend(1u128 << (p - 1)..1u128 << p);
    } else {
        sg = sigs(p, 1);
        sg.truncate(4000);
    }
    let n = sg.len() as u64;
    k.job(
        format!("shapes {}", T::M.name),
        true,
        format!("{n} {p}-bit leading parts x every bit length {p}..=128 x the remaining bits 0, 1, half-1, half, half+1, all ones; the same negated; and the neighbours of every power of two"),
        n,
        move |i, c| {
            let s = sg[i as usize];
            for sh in 0..=128 - p {
                let b = s << sh;
                let h = if sh == 0 { 0 } else { 1u128 << (sh - 1) };
                for t in [0, 1, h.saturating_sub(1), h, h.wrapping_add(1), mask(sh), h | h >> 1, h >> 1] {
                    let x = b | t & mask(sh);
                    one::<T>(c, x);
                    one::<T>(c, x.wrapping_neg());
                    if c.failed() {
                        return;
                    }
                }
            }
            if i < 128 {
                let x = 1u128 << i;
                for y in [x - 1, x, x + 1, x.wrapping_neg(), !x, x + (x >> 1)] {
                    one::<T>(c, y);
                }
            }
        },
    );
}

/// All odd integers of up to 12 bits at every position, and pairs of bits.
fn bits<T: Sub>(k: &mut Check, w: u32) {
    k.job(format!("windows {}", T::M.name), true, format!("every {w}-bit window at every position, with and without bit 0 and with all ones below"), 128, move |i, c| {
        for m in 1..1u128 << w {
            let x = m << i;
            for y in [x, x | 1, x | mask(i as u32), x.wrapping_neg()] {
                one::<T>(c, y);
                if c.failed() {
                    return;
                }
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C08");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    for_fmts!(small(k, q(15, 22)): T6E3, N6E3, T7E4, N7E4, T8E4, E5M2, E4M3FN, T10E5, N10E5);
    for_fmts!(small(k, q(18, 24)): Half, BFloat);
    for_fmts!(small(k, q(16, 27)): Single);
    for_fmts!(small(k, q(16, 20)): Double, X87, Quad);
    for_fmts!(shapes(k): T7E4, E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    for_fmts!(bits(k, q(8, 13)): E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    k.run()
}
