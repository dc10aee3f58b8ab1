//! C04: arithmetic reports exactly the right exception flags.
use checks::*;
use rustc_apfloat::Float;

fn bad(c: &mut Ctx, m: &Fmt, op: &str, ops: &[u128], rm: Rm, got: u8, want: u8) {
    let o: Vec<String> = ops.iter().map(|&b| showv(m, b)).collect();
    c.fail(format!("{} {op}({}) {rm:?}: status {}, expected {}", m.name, o.join(", "), show_st(got), show_st(want)));
}

fn pair<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let m = &T::M;
    let (va, vb) = (m.decode(a), m.decode(b));
    if m.unsupported(a) || m.unsupported(b) {
        return; // x87: which of them signal is not specified
    }
    let nan = va.is_nan() || vb.is_nan();
    let ns = nan_st(m, &[va, vb]);
    c.states += 1;
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    for rm in RMS {
        let r = rnd(rm);
        for k in 0..4 {
            const OPS: [&str; 4] = ["add_r", "sub_r", "mul_r", "div_r"];
            c.at(&OPS[k], a, b, 0, rm as u64);
            let (got, want) = match k {
                0 => (x.add_r(y, r).status, m.add(va, vb, rm).1),
                1 => (x.sub_r(y, r).status, m.sub(va, vb, rm).1),
                2 => (x.mul_r(y, r).status, m.mul(va, vb, rm).1),
                _ => (x.div_r(y, r).status, m.div(va, vb, rm).1),
            };
            let want = if nan { ns } else { want };
            c.transitions += 1;
            if st(got) != want {
                return bad(c, m, OPS[k], &[a, b], rm, st(got), want);
            }
            c.outcome((want as u128) << 8 | (k as u128) << 4 | rm as u128 | (m.bits as u128) << 32);
        }
    }
    c.traces += 4;
    c.sample(|| format!("{} flags of + - * / on {}, {} agree in 5 modes", m.name, showv(m, a), showv(m, b)));
}

fn triple<T: Sub>(c: &mut Ctx, a: u128, b: u128, d: u128) {
    let m = &T::M;
    let (va, vb, vd) = (m.decode(a), m.decode(b), m.decode(d));
    if m.unsupported(a) || m.unsupported(b) || m.unsupported(d) {
        return;
    }
    let nan = va.is_nan() || vb.is_nan() || vd.is_nan();
    let zi = va.is_zero() && vb.is_inf() || va.is_inf() && vb.is_zero();
    let ns = if zi { INVALID } else { nan_st(m, &[va, vb, vd]) };
    c.states += 1;
    let (x, y, z) = (T::F::from_bits(a), T::F::from_bits(b), T::F::from_bits(d));
    for rm in RMS {
        c.at(&"mul_add_r", a, b, d, rm as u64);
        let got = st(x.mul_add_r(y, z, rnd(rm)).status);
        let want = if nan { ns } else { m.fma(va, vb, vd, rm).1 };
        c.transitions += 1;
        if got != want {
            return bad(c, m, "mul_add_r", &[a, b, d], rm, got, want);
        }
        c.outcome((want as u128) << 8 | 15 << 4 | rm as u128 | (m.bits as u128) << 32);
    }
    c.traces += 1;
}

fn main() {
    let k = &mut Check::new("C04");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    spaces!(all_pairs(k, "flags"; pair): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5);
    spaces!(all_triples(k, "flags fma"; triple): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4);
    spaces!(all_triples(k, "flags fma"; triple): E4M3FN, E5M2, T8E3);
    if t {
        spaces!(all_pairs(k, "flags"; pair): T11E5, T12E5, T12E6, Half, BFloat);
        spaces!(all_triples(k, "flags fma"; triple): T8E4, N8E3, T9E4, N9E4);
    }
    spaces!(lat_pairs(k, "flags", q(6, 40); pair): Half, BFloat, Single, Double, X87, Quad);
    spaces!(gap_pairs(k, "flags", q(5, 1); pair): Half, BFloat, Single);
    spaces!(gap_pairs(k, "flags", q(32, 3); pair): Double, X87);
    spaces!(gap_pairs(k, "flags", q(32, 8); pair): Quad);
    spaces!(factor_pairs(k, "flags", q(2, 1); pair): Half, BFloat, Single);
    spaces!(factor_pairs(k, "flags", q(6, 1); pair): Double, X87);
    spaces!(factor_pairs(k, "flags", q(12, 2); pair): Quad);
    spaces!(threshold_pairs(k, "flags", q(7, 1); pair): Half, BFloat, Single);
    spaces!(threshold_pairs(k, "flags", q(24, 5); pair): Double, X87);
    spaces!(threshold_pairs(k, "flags", q(40, 10); pair): Quad);
    spaces!(fma_gaps(k, "flags fma", q(14, 30), q(10, 30); triple): Half, BFloat, Single, Double, X87, Quad);
    spaces!(lat_triples(k, "flags fma", q(4, 12); triple): Half, BFloat, Single, Double, X87, Quad);
    spaces!(range_pairs(k, "flags", q(10, 100); pair): Half, BFloat, Single);
    spaces!(range_pairs(k, "flags", q(4, 50); pair): Double);
    spaces!(range_pairs(k, "flags", q(1, 6); pair): X87, Quad);
    spaces!(range_triples(k, "flags fma", q(50, 200); triple): Half, BFloat, Single);
    spaces!(range_triples(k, "flags fma", q(30, 200); triple): Double);
    spaces!(range_triples(k, "flags fma", q(5, 30); triple): X87, Quad);
    k.run()
}
