//! C07: float to integer conversion.
use checks::*;
use rustc_apfloat::Float;

fn widths<T: Sub>(c: &mut Ctx, a: u128, ws: impl Iterator<Item = u32>) {
    let m = &T::M;
    let va = m.decode(a);
    let x = T::F::from_bits(a);
    c.states += 1;
    for w in ws {
        for rm in RMS {
            for signed in [false, true] {
                let op: &'static &'static str = if signed { &"to_i128_r" } else { &"to_u128_r" };
                c.at(op, a, w as u128, 0, rm as u64);
                let mut exact = w & 1 == 0; // the previous content must not matter
                let (got, gs) = if signed {
                    let r = x.to_i128_r(w as usize, rnd(rm), &mut exact);
                    (r.value as u128, st(r.status))
                } else {
                    let r = x.to_u128_r(w as usize, rnd(rm), &mut exact);
                    (r.value, st(r.status))
                };
                let (neg, mag, ws, we) = m.to_int(va, w, signed, rm);
                let want = if neg { mag.wrapping_neg() } else { mag };
                c.transitions += 1;
                if got != want || gs != ws || exact != we {
                    return c.fail(format!(
                        "{} {}({}, width {}) {:?} = {:#x} {} exact={}, expected {:#x} {} exact={}",
                        m.name, op, showv(m, a), w, rm, got, show_st(gs), exact, want, show_st(ws), we
                    ));
                }
                c.outcome(got ^ (w as u128) << 64 ^ (gs as u128) << 50);
            }
        }
    }
    c.traces += 1;
    c.sample(|| format!("{} to integer of {} agrees", m.name, showv(m, a)));
}

fn all_widths<T: Sub>(c: &mut Ctx, a: u128) {
    widths::<T>(c, a, 1..=128);
}
/// The widths at which something can change for this value, and the extremes.
fn near_widths<T: Sub>(c: &mut Ctx, a: u128) {
    let w = match T::M.ilogb(T::M.decode(a)) {
        Some(e) if e >= 0 => e + 1,
        _ => 1,
    };
    let mut v: Vec<i32> = (w - 2..=w + 3).chain([1, 2, 8, 31, 32, 63, 64, 65, 127, 128]).filter(|&x| x >= 1 && x <= 128).collect();
    v.sort();
    v.dedup();
    widths::<T>(c, a, v.into_iter().map(|x| x as u32));
}

/// All positions of the binary point, all exponents that matter.
fn points<T: Sub>(k: &mut Check, nsig: usize) {
    let m = T::M;
    let bias = (m.exp_mask() as i64 - 1) / 2;
    let mut sg = sigs(m.p, 1);
    sg.extend(cut_sigs(m.p));
    sg.sort();
    sg.dedup();
    let sg: Vec<u128> = if sg.len() > nsig { (0..nsig).map(|i| sg[i * sg.len() / nsig]).collect() } else { sg };
    k.job(format!("points {}", m.name), true, format!("{} significands x exponents -5..=131 x both signs x all widths near the value and the usual ones", sg.len()), 137, move |i, c| {
        let e = bias + i as i64 - 5;
        if e < 1 || e >= m.exp_mask() as i64 {
            return;
        }
        for &s in &sg {
            near_widths::<T>(c, enc(&m, false, e as u128, s));
            near_widths::<T>(c, enc(&m, true, e as u128, s));
            if c.failed() {
                return;
            }
        }
    });
}

/// Every exponent against every width: `n` values for each width at the exponents around the integers, each width
/// once elsewhere.
fn grid<T: Sub>(k: &mut Check, n: u64) {
    let m = T::M;
    let top = m.exp_mask() as u64;
    let bias = m.exp_mask() as i64 / 2;
    k.job(format!("exponents x widths {}", m.name), true, format!("every exponent x every width 1..=128: {n} significands each at -8..=136, at other exponents one"), top, move |be, c| {
        let near = (-8..=136).contains(&(be as i64 - bias));
        for w in 1..=128 {
            for j in 0..if near { n } else { 1 } {
                widths::<T>(c, pick(&m, be as i64, be << 30 | (w as u64) << 20 | j), std::iter::once(w));
                if c.failed() {
                    return;
                }
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C07");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    spaces!(all_values(k, "toint"; all_widths): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, T8E3, T8E4, N8E3, E5M2, E4M3FN, T9E4, N9E4, T10E5, N10E5, T11E5);
    spaces!(all_values(k, "toint"; near_widths): Half, BFloat);
    if t {
        spaces!(all_values(k, "toint"; all_widths): T12E5, T12E6, Half, BFloat);
    }
    for_fmts!(points(k, q(2500, 100_000)): Single, Double, X87, Quad);
    spaces!(lat_values(k, "toint", q(30, 200); all_widths): Single, Double, X87, Quad);
    spaces!(lat_values(k, "toint", q(200, 2000); near_widths): Single, Double, X87, Quad);
    for_fmts!(grid(k, q(400, 10_000) as u64): Single, Double, X87, Quad, BFloat, Half);
    k.run()
}
