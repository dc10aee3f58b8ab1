//! C03: fused multiply-add rounds exactly once.
use checks::*;
use rustc_apfloat::Float;

fn triple<T: Sub>(c: &mut Ctx, a: u128, b: u128, d: u128) {
    let m = &T::M;
    let (va, vb, vd) = (m.decode(a), m.decode(b), m.decode(d));
    if va.is_nan() || vb.is_nan() || vd.is_nan() {
        return;
    }
    c.states += 1;
    let (x, y, z) = (T::F::from_bits(a), T::F::from_bits(b), T::F::from_bits(d));
    for rm in RMS {
        c.at(&"mul_add_r", a, b, d, rm as u64);
        let got = x.mul_add_r(y, z, rnd(rm)).value.to_bits();
        let (want, _) = m.fma(va, vb, vd, rm);
        c.transitions += 1;
        if !same(m, got, want) {
            c.fail(format!("{} mul_add_r({}, {}, {}) {:?} = {}, expected {:?}", m.name, showv(m, a), showv(m, b), showv(m, d), rm, showv(m, got), want));
            return;
        }
        c.outcome(got ^ (m.bits as u128) << 100);
    }
    c.traces += 1;
    c.sample(|| format!("{} {} * {} + {} agrees in 5 modes", m.name, showv(m, a), showv(m, b), showv(m, d)));
}

fn main() {
    let k = &mut Check::new("C03");
    let t = k.thorough();
    k.model_cross_checks = checks::host::check_fma();
    spaces!(all_triples(k, "fma"; triple): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4);
    spaces!(all_triples(k, "fma"; triple): E4M3FN, E5M2, T8E3);
    if t {
        spaces!(all_triples(k, "fma"; triple): T8E4, N8E3, T9E4, N9E4, T10E5, T10E4);
    }
    let q = |a, b| if t { b } else { a };
    spaces!(fma_gaps(k, "fma", q(14, 40), q(10, 40); triple): Half, BFloat, Single);
    spaces!(fma_gaps(k, "fma", q(12, 30), q(8, 30); triple): Double, X87);
    spaces!(fma_gaps(k, "fma", q(10, 30), q(7, 24); triple): Quad);
    spaces!(lat_triples(k, "fma", q(3, 12); triple): Half, BFloat, Single, Double, X87, Quad);
    spaces!(range_triples(k, "fma", q(200, 2000); triple): Half, BFloat, Single);
    spaces!(range_triples(k, "fma", q(100, 1000); triple): Double);
    spaces!(range_triples(k, "fma", q(20, 100); triple): X87, Quad);
    k.run()
}
