//! C01: addition and subtraction are correctly rounded.
use checks::*;
use rustc_apfloat::Float;

fn pair<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let m = &T::M;
    let (va, vb) = (m.decode(a), m.decode(b));
    if va.is_nan() || vb.is_nan() {
        return;
    }
    c.states += 1;
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    for sub in [false, true] {
        let op: &'static &'static str = if sub { &"sub_r" } else { &"add_r" };
        for rm in RMS {
            c.at(op, a, b, 0, rm as u64);
            let r = if sub { x.sub_r(y, rnd(rm)) } else { x.add_r(y, rnd(rm)) };
            let got = r.value.to_bits();
            let (want, _) = if sub { m.sub(va, vb, rm) } else { m.add(va, vb, rm) };
            c.transitions += 1;
            if !same(m, got, want) {
                c.fail(format!("{} {}({}, {}) {:?} = {}, expected {:?}", m.name, op, showv(m, a), showv(m, b), rm, showv(m, got), want));
                return;
            }
            c.outcome(got ^ (m.bits as u128) << 100);
        }
        c.traces += 1;
    }
    c.sample(|| format!("{} {} +- {} agree in 5 modes", m.name, showv(m, a), showv(m, b)));
}

fn main() {
    let k = &mut Check::new("C01");
    let t = k.thorough();
    k.model_cross_checks = checks::host::check_pairs(&["add", "sub"]);
    spaces!(all_pairs(k, "+-"; pair): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5);
    if t {
        spaces!(all_pairs(k, "+-"; pair): T12E5, T12E6, Half, BFloat);
    }
    let n = if t { 80 } else { 22 };
    spaces!(lat_pairs(k, "+-", n; pair): Half, BFloat, Single, Double, X87, Quad);
    spaces!(gap_pairs(k, "+-", if t { 1 } else { 3 }; pair): Half, BFloat, Single);
    spaces!(gap_pairs(k, "+-", if t { 2 } else { 7 }; pair): Double, X87);
    spaces!(gap_pairs(k, "+-", if t { 4 } else { 16 }; pair): Quad);
    let r = |a, b| if t { b } else { a };
    spaces!(range_pairs(k, "+-", r(100, 1000); pair): Half, BFloat, Single);
    spaces!(range_pairs(k, "+-", r(50, 500); pair): Double);
    spaces!(range_pairs(k, "+-", r(8, 40); pair): X87, Quad);
    k.run()
}
