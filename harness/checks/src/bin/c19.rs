//! C19: printing and reading back.
use checks::*;
use rustc_apfloat::Float;
use std::fmt::Write;

fn with_widths<T: Sub>(c: &mut Ctx, a: u128, ws: &[Option<usize>]) {
    forms::<T>(c, a, ws, &[(None, false), (None, true), (Some(0usize), false)])
}
fn forms<T: Sub>(c: &mut Ctx, a: u128, ws: &[Option<usize>], fs: &[(Option<usize>, bool)]) {
    let m = &T::M;
    let v = m.decode(a);
    let x = T::F::from_bits(a);
    let mut s = String::new();
    let mut last = String::new();
    c.states += 1;
    for &w in ws {
        for &(p, alt) in fs {
            c.at(&"Display", a, w.map_or(!0, |w| w as u128), p.map_or(!0, |w| w as u128), alt as u64);
            s.clear();
            let _ = match (w, p, alt) {
                (None, None, false) => write!(s, "{}", x),
                (None, _, true) => write!(s, "{:#}", x),
                (None, Some(p), false) => write!(s, "{:.p$}", x),
                (Some(w), None, false) => write!(s, "{:w$}", x),
                (Some(w), _, true) => write!(s, "{:#w$}", x),
                (Some(w), Some(p), false) => write!(s, "{:w$.p$}", x),
            };
            c.transitions += 1;
            if s == last {
                continue;
            }
            last.clear();
            last.push_str(&s);
            c.at_text(&"parse printed text", &s, 0);
            let r = T::F::from_str_r(&s, rustc_apfloat::Round::NearestTiesToEven);
            let r2 = s.parse::<T::F>();
            c.transitions += 2;
            let (Ok(r), Ok(r2)) = (r, r2) else {
                return c.fail(format!("{} width {:?} alternate {} of {} = {:?} is not accepted by the parser", m.name, w, alt, showv(m, a), s));
            };
            let got = r.value.to_bits();
            if !same(m, got, v) || !same(m, r2.to_bits(), v) {
                return c.fail(format!(
                    "{} width {:?} alternate {} of {} = {:?} reads back as {}", m.name, w, alt, showv(m, a), s, showv(m, got)
                ));
            }
            c.outcome(got ^ (m.bits as u128) << 100);
        }
    }
    c.traces += 1;
    c.sample(|| format!("{} {} prints as {} and reads back", m.name, showv(m, a), s));
}
fn one<T: Sub>(c: &mut Ctx, a: u128) {
    with_widths::<T>(c, a, &[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6), Some(9), Some(20), Some(60), Some(500)]);
}
fn few<T: Sub>(c: &mut Ctx, a: u128) {
    with_widths::<T>(c, a, &[None, Some(0)]);
}
/// The plain form alone.
fn once<T: Sub>(c: &mut Ctx, a: u128) {
    forms::<T>(c, a, &[None], &[(None, a % 3 == 0)]);
}
/// Adjacent values are where too few digits would show.
fn neighbours<T: Sub>(c: &mut Ctx, a: u128) {
    let m = &T::M;
    for x in [a, a.wrapping_add(1), a.wrapping_sub(1)] {
        if m.bits < 128 && x >> m.bits != 0 || m.encode(m.decode(x)) != x {
            continue;
        }
        few::<T>(c, x);
        if c.failed() {
            return;
        }
    }
}

/// Decades whose powers of ten lie just below a power of two, where the digits needed are most:
/// consecutive values from the power of ten upward, and up to the power of two.
fn decades<T: Sub>(k: &mut Check, near: usize, far: usize, run: u128) {
    let m = &T::M;
    let lim = (m.emax as f64 * 2f64.log10()) as i64 - 1;
    let mut ks: Vec<(f64, i64)> = (-lim..=lim).map(|d| ((d as f64 * 10f64.log2()).rem_euclid(1.0), d)).collect();
    ks.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let mut pick: Vec<i64> = ks.iter().filter(|x| x.1.abs() <= 80).take(near).map(|x| x.1).collect();
    pick.extend(ks.iter().take(far).map(|x| x.1));
    pick.sort();
    pick.dedup();
    let mut items = vec![];
    for d in pick {
        let (v, _) = m.dec(false, &[1], d, model::Rm::Down);
        let a = m.encode(v);
        // one past the greatest encoding of the binade
        let end = if m.bits == 80 { ((a >> 64) + 1) << 64 } else { ((a >> (m.p - 1)) + 1) << (m.p - 1) };
        for j in 0..run {
            items.push(a + j);
            items.push(end - 1 - j);
        }
    }
    items.retain(|&x| m.decode(x).is_finite() && m.encode(m.decode(x)) == x);
    items.sort();
    items.dedup();
    let items: Vec<Vec<u128>> = items.chunks(64).map(|c| c.to_vec()).collect();
    let what = format!("{} consecutive values above the powers of ten that lie closest below a power of two, and below that power of two", run);
    k.job(&format!("{} decades", m.name), false, &what, items.len() as u64, move |i, c| {
        for &x in &items[i as usize] {
            few::<T>(c, x);
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C19");
    let t = k.thorough();
    spaces!(all_values(k, "round trip"; one): T6E3, T7E3, T7E4, T8E3, T8E4, N6E3, N7E3, N8E3, N7E4, E5M2, E4M3FN, T9E4, N9E4, T10E4, T10E5, N10E5, T11E5, T12E5, T12E6, Half, BFloat);
    spaces!(lat_values(k, "round trip", if t { 500 } else { 60 }; one): Single);
    spaces!(lat_values(k, "round trip", if t { 200 } else { 20 }; one): Double);
    spaces!(lat_values(k, "round trip", if t { 10 } else { 1 }; few): X87, Quad);
    every_exponent::<Single>(k, "round trip", sigs(24, if t { 1 } else { 4 }), neighbours::<Single>);
    every_exponent::<Double>(k, "round trip", if t { sigs(53, 4) } else { few_sigs(53) }, neighbours::<Double>);
    scrambled::<X87>(k, "round trip", if t { 4 } else { 1 }, once::<X87>);
    scrambled::<Quad>(k, "round trip", if t { 4 } else { 1 }, once::<Quad>);
    let (near, far, run) = if t { (30, 30, 600) } else { (12, 4, 100) };
    for_fmts!(decades(k, near, far, run): Single, Double, X87, Quad);
    k.run()
}
