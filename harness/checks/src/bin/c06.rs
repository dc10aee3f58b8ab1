//! C06: rounding to an integral value.
use checks::*;
use rustc_apfloat::Float;

fn one<T: Sub>(c: &mut Ctx, a: u128) {
    let m = &T::M;
    let va = m.decode(a);
    let x = T::F::from_bits(a);
    c.states += 1;
    c.at(&"is_integer", a, 0, 0, 0);
    let i = x.is_integer();
    c.transitions += 1;
    if i != m.is_integer(va) {
        return c.fail(format!("{} is_integer({}) = {}", m.name, showv(m, a), i));
    }
    if va.is_nan() {
        return;
    }
    for rm in RMS {
        c.at(&"round_to_integral", a, 0, 0, rm as u64);
        let r = x.round_to_integral(rnd(rm));
        let (got, gs) = (r.value.to_bits(), st(r.status));
        let (want, ws) = m.rti(va, rm);
        c.transitions += 1;
        if !same(m, got, want) || gs != ws {
            return c.fail(format!(
                "{} round_to_integral({}) {:?} = {} {}, expected {:?} {}",
                m.name, showv(m, a), rm, showv(m, got), show_st(gs), want, show_st(ws)
            ));
        }
        c.outcome(got ^ (m.bits as u128) << 100);
    }
    c.traces += 1;
    c.sample(|| format!("{} round_to_integral({}) agrees in 5 modes", m.name, showv(m, a)));
}

/// Integer part, half bit and tail at every position of the binary point.
fn points<T: Sub>(k: &mut Check, nsig: usize) {
    let m = T::M;
    let p = m.p;
    let bias = (m.exp_mask() as i64 - 1) / 2;
    let mut sg = sigs(p, 1);
    sg.extend(cut_sigs(p));
    sg.sort();
    sg.dedup();
    let sg: Vec<u128> = if sg.len() > nsig { (0..nsig).map(|i| sg[i * sg.len() / nsig]).collect() } else { sg };
    k.job(
        format!("points {}", m.name),
        true,
        format!("{} significands x every exponent -4..={} x both signs", sg.len(), p + 4),
        p as u64 + 9,
        move |i, c| {
            let e = bias + i as i64 - 4;
            if e < 1 || e >= m.exp_mask() as i64 {
                return;
            }
            for &s in &sg {
                one::<T>(c, enc(&m, false, e as u128, s));
                one::<T>(c, enc(&m, true, e as u128, s));
                if c.failed() {
                    return;
                }
            }
        },
    );
}

/// `n` scrambled significands at every exponent around the integers.
fn grid<T: Sub>(k: &mut Check, n: u64) {
    let m = T::M;
    let bias = m.exp_mask() as i64 / 2;
    k.job(format!("around integers {}", m.name), true, format!("every exponent -4..={} x {n} significands", m.p + 4), (m.p as u64 + 9) * 16, move |i, c| {
        for j in 0..n / 16 {
            one::<T>(c, pick(&m, (bias + i as i64 / 16 - 4).min(m.exp_mask() as i64 - 1), i << 30 | j));
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C06");
    let t = k.thorough();
    // formats whose exponent range reaches the precision (the others cannot represent 2^(p-1))
    spaces!(all_values(k, "rti"; one): T7E4, N7E4, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5, T12E5, T12E6, E5M2, E4M3FN, Half, BFloat);
    for_fmts!(points(k, 100_000): Single, Double, X87, Quad);
    spaces!(lat_values(k, "rti", if t { 2000 } else { 400 }; one): Single, Double, X87, Quad);
    every_exponent::<Single>(k, "rti", sigs(24, 1), one::<Single>);
    every_exponent::<Double>(k, "rti", sigs(53, if t { 1 } else { 3 }), one::<Double>);
    every_exponent::<X87>(k, "rti", if t { sigs(64, 4) } else { few_sigs(64) }, one::<X87>);
    every_exponent::<Quad>(k, "rti", if t { sigs(113, 8) } else { few_sigs(113) }, one::<Quad>);
    if t {
        spaces!(all_values(k, "rti"; one): Single);
    }
    for_fmts!(grid(k, if t { 2_000_000 } else { 100_000 }): Double, X87, Quad);
    k.run()
}
