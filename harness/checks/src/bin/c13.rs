//! C13: next-up and next-down step to the adjacent value.
use checks::*;
use rustc_apfloat::Float;

fn one<T: Sub>(c: &mut Ctx, a: u128) {
    let m = &T::M;
    let v = m.decode(a);
    let x = T::F::from_bits(a);
    c.states += 1;
    for down in [false, true] {
        let op: &'static &'static str = if down { &"next_down" } else { &"next_up" };
        c.at(op, a, 0, 0, 0);
        let r = if down { x.next_down() } else { x.next_up() };
        let (got, gs) = (r.value.to_bits(), st(r.status));
        c.transitions += 1;
        let g = m.decode(got);
        let mut w = v;
        let (ok, want) = if m.unsupported(a) && v.is_nan() {
            (g.is_nan() && g.neg() == v.neg(), "a NaN of the same sign")
        } else if m.is_snan(v) {
            (g.is_nan() && !m.is_snan(g) && g.neg() == v.neg() && gs == INVALID, "a quiet NaN of the same sign, INVALID_OP")
        } else if v.is_nan() {
            (got == a && gs == 0, "the operand")
        } else {
            w = if down { m.next_up(v.negate()).negate() } else { m.next_up(v) };
            (same(m, got, w) && gs == 0, "the neighbour")
        };
        if !ok {
            return c.fail(format!("{} {op}({}) = {} {}, expected {} ({:?})", m.name, showv(m, a), showv(m, got), show_st(gs), want, w));
        }
        // The definition itself, through the order of the exact values (binds the model's step to it).
        if let (false, false) = (v.is_nan(), g.is_nan()) {
            let (lo, hi) = if down { (got, a) } else { (a, got) };
            let o = m.cmp(m.decode(lo), m.decode(hi)).unwrap();
            if !(o.is_lt() || v.is_inf() && g == v || v.is_zero() && g.is_zero()) {
                return c.fail(format!("{} {op}({}) = {} does not move", m.name, showv(m, a), showv(m, got)));
            }
        }
        c.outcome(got ^ (m.bits as u128) << 112);
        c.traces += 1;
    }
    c.sample(|| format!("{} neighbours of {} agree", m.name, showv(m, a)));
}

fn main() {
    let k = &mut Check::new("C13");
    let t = k.thorough();
    spaces!(all_values(k, "next"; one): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5, T12E5, T12E6, Half, BFloat);
    spaces!(lat_values(k, "next", 5000; one): Single, Double, X87, Quad);
    every_exponent::<Single>(k, "next", cut_sigs(24), one::<Single>);
    every_exponent::<Double>(k, "next", cut_sigs(53), one::<Double>);
    every_exponent::<X87>(k, "next", sigs(64, 2), one::<X87>);
    every_exponent::<Quad>(k, "next", sigs(113, 4), one::<Quad>);
    for_fmts!(nan_bits(k): Half, BFloat, Single, Double, X87, Quad);
    if t {
        spaces!(all_values(k, "next"; one): Single);
    }
    k.run()
}
fn nan_bits<T: Sub>(k: &mut Check) {
    let v = nan_payloads(&T::M);
    k.job(format!("NaN payloads {}", T::M.name), true, format!("{} NaNs", v.len()), 1, move |_, c| {
        for &a in &v {
            one::<T>(c, a)
        }
    });
}
