//! C10: NaN operands propagate, are quieted and signal correctly.
use checks::*;
use rustc_apfloat::Float;

const OPS: [&str; 6] = ["add_r", "sub_r", "mul_r", "div_r", "ieee_rem", "c_fmod"];

/// The expected NaN: None when only "some NaN" is required (an unsupported x87 encoding came first).
fn check(c: &mut Ctx, m: &Fmt, op: &str, ops: &[u128], rm: Rm, got: u128, gs: u8, extra_invalid: bool) {
    let first = ops.iter().copied().find(|&b| m.decode(b).is_nan());
    let odd = ops.iter().any(|&b| m.unsupported(b));
    let g = m.decode(got);
    c.transitions += 1;
    let mut vs = [V::Zero(false); 3];
    for (v, &b) in vs.iter_mut().zip(ops) {
        *v = m.decode(b);
    }
    let ws = if extra_invalid { INVALID } else { nan_st(m, &vs) };
    let ok = match first {
        None => !g.is_nan() || !m.is_snan(g),
        Some(_) if odd => g.is_nan(),
        // zero times infinity plus NaN: any quiet NaN
        Some(_) if extra_invalid => g.is_nan() && !m.is_snan(g) && gs == ws,
        Some(f) => got == m.encode(quiet(m, m.decode(f))) && gs == ws,
    };
    if !ok {
        let o: Vec<String> = ops.iter().map(|&b| showv(m, b)).collect();
        c.fail(format!(
            "{} {op}({}) {rm:?} = {} {}, expected the first NaN operand quieted, {}",
            m.name, o.join(", "), showv(m, got), show_st(gs), show_st(ws)
        ));
    }
    c.outcome(got ^ (gs as u128) << 120);
}

fn pair<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let m = &T::M;
    c.states += 1;
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    let nan = m.decode(a).is_nan() || m.decode(b).is_nan();
    for rm in RMS {
        let r = rnd(rm);
        for k in 0..6 {
            if k > 3 && (rm != Rm::Ne || !nan && !m.decode(a).is_inf() && !m.decode(b).is_zero()) {
                continue;
            }
            c.at(&OPS[k], a, b, 0, rm as u64);
            let v = match k {
                0 => x.add_r(y, r),
                1 => x.sub_r(y, r),
                2 => x.mul_r(y, r),
                3 => x.div_r(y, r),
                4 => x.ieee_rem(y),
                _ => x.c_fmod(y),
            };
            check(c, m, OPS[k], &[a, b], rm, v.value.to_bits(), st(v.status), false);
        }
        if c.failed() {
            return;
        }
    }
    c.at(&"copy_sign", a, b, 0, 0);
    let v = x.copy_sign(y).to_bits();
    let w = a & !m.sign_bit() | b & m.sign_bit();
    c.transitions += 1;
    if v != w && !m.unsupported(a) {
        return c.fail(format!("{} copy_sign({}, {}) = {}", m.name, showv(m, a), showv(m, b), showv(m, v)));
    }
    c.traces += 7;
}

fn triple<T: Sub>(c: &mut Ctx, a: u128, b: u128, d: u128) {
    let m = &T::M;
    c.states += 1;
    let (x, y, z) = (T::F::from_bits(a), T::F::from_bits(b), T::F::from_bits(d));
    let (va, vb) = (m.decode(a), m.decode(b));
    let zi = va.is_zero() && vb.is_inf() || va.is_inf() && vb.is_zero();
    for rm in RMS {
        c.at(&"mul_add_r", a, b, d, rm as u64);
        let v = x.mul_add_r(y, z, rnd(rm));
        check(c, m, "mul_add_r", &[a, b, d], rm, v.value.to_bits(), st(v.status), zi);
        if c.failed() {
            return;
        }
    }
    c.traces += 1;
}

fn one<T: Sub>(c: &mut Ctx, a: u128) {
    let m = &T::M;
    if !m.decode(a).is_nan() {
        return;
    }
    c.states += 1;
    let x = T::F::from_bits(a);
    for rm in RMS {
        c.at(&"round_to_integral", a, 0, 0, rm as u64);
        let v = x.round_to_integral(rnd(rm));
        check(c, m, "round_to_integral", &[a], rm, v.value.to_bits(), st(v.status), false);
    }
    for (op, v, w) in [("neg", (-x).to_bits(), a ^ m.sign_bit()), ("abs", x.abs().to_bits(), a & !m.sign_bit())] {
        c.transitions += 1;
        if v != w && !m.unsupported(a) {
            return c.fail(format!("{} {op}({}) = {}", m.name, showv(m, a), showv(m, v)));
        }
    }
    c.traces += 3;
    c.sample(|| format!("{} NaN {} keeps sign and payload", m.name, showv(m, a)));
}

/// NaNs of the format (all of them for small formats), and companions.
fn nans<T: Sub>(k: &mut Check) {
    let m = T::M;
    let mut nan: Vec<u128> = if m.bits <= 12 { (0..1u128 << m.bits).filter(|&b| m.decode(b).is_nan()).collect() } else { nan_payloads(&m) };
    if m.x87 {
        nan.extend(x87_odd().into_iter().filter(|&b| m.decode(b).is_nan()));
    }
    let mut other = specials(&m);
    for s in few_sigs(m.p).into_iter().step_by(5) {
        for e in exps(&m, false) {
            other.push(enc(&m, false, e, s));
            other.push(enc(&m, true, e, s));
        }
        other.push(enc_sub(&m, false, s));
        other.push(enc_sub(&m, true, s >> 1));
    }
    other.sort();
    other.dedup();
    let all: Vec<u128> = nan.iter().chain(&other).copied().collect();
    let (n2, a2) = (nan.clone(), all.clone());
    k.job(
        format!("NaN pairs {}", m.name),
        true,
        format!("{} NaNs x {} NaNs and other values, both orders, 6 operations and copy-sign; unary operations", nan.len(), all.len()),
        nan.len() as u64,
        move |i, c| {
            let a = n2[i as usize];
            one::<T>(c, a);
            for &b in &a2 {
                pair::<T>(c, a, b);
                pair::<T>(c, b, a);
                if c.failed() {
                    return;
                }
            }
        },
    );
    // Non-NaN specials: invalid operations must give quiet NaNs.
    let (o2, o3) = (other.clone(), other.clone());
    k.job(format!("invalid operations {}", m.name), true, format!("all pairs and, over the specials, triples of {} values", other.len()), other.len() as u64, move |i, c| {
        let a = o2[i as usize];
        for &b in &o2 {
            pair::<T>(c, a, b);
            if c.failed() {
                return;
            }
        }
    });
    // Triples: NaN in every position.
    let nan3: Vec<u128> = nan.iter().copied().step_by((nan.len() / 24).max(1)).collect();
    let mut small: Vec<u128> = nan3.clone();
    small.extend(o3.iter().copied().filter(|&b| !m.decode(b).is_fin_nz()));
    small.extend(o3.iter().copied().filter(|&b| m.decode(b).is_fin_nz()).step_by(7));
    let n = small.len() as u64;
    k.job(format!("NaN triples {}", m.name), true, format!("fused multiply-add over all triples of {n} values (NaNs, infinities, zeros, finite)"), n * n, move |i, c| {
        let (a, b) = (small[(i / n) as usize], small[(i % n) as usize]);
        for &d in &small {
            triple::<T>(c, a, b, d);
            if c.failed() {
                return;
            }
        }
    });
}

/// Scrambled NaNs against values of every exponent, in every operand position.
fn grid<T: Sub>(k: &mut Check, n: u64) {
    let m = T::M;
    let top = m.exp_mask() as u64;
    k.job(format!("NaN x every exponent {}", m.name), true, format!("{n} NaNs per exponent: with a value of that exponent in both orders, in every position of the fused multiply-add, with another NaN; unary operations"), top, move |be, c| {
        for j in 0..n {
            let sd = be << 20 | j << 2;
            let (a, b) = (pick_nan(&m, sd), pick_nan(&m, sd | 1));
            let x = pick(&m, be as i64, sd);
            let y = pick(&m, (scramble(sd | 1) as u64 % top) as i64, sd | 1);
            one::<T>(c, a);
            pair::<T>(c, a, x);
            pair::<T>(c, x, a);
            pair::<T>(c, a, b);
            triple::<T>(c, a, x, y);
            triple::<T>(c, x, a, y);
            triple::<T>(c, x, y, a);
            triple::<T>(c, y, x, a);
            for (p, q, r) in [(a, b, x), (a, x, b), (x, a, b)] {
                triple::<T>(c, p, q, r);
            }
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C10");
    let t = k.thorough();
    spaces!(all_pairs(k, "all operands"; pair): T6E3, N6E3, T7E4, N7E4, T8E3, T8E4, E5M2, E4M3FN);
    spaces!(all_triples(k, "all operands fma"; triple): T6E3, N6E3, T7E3, N7E3);
    spaces!(all_values(k, "all NaNs"; one): Half, BFloat);
    if t {
        spaces!(all_pairs(k, "all operands"; pair): T10E5, N10E5, T11E5, T12E5);
        spaces!(all_triples(k, "all operands fma"; triple): E5M2, E4M3FN, T8E3);
    }
    for_fmts!(nans(k): E5M2, E4M3FN, T10E4, Half, BFloat, Single, Double, X87, Quad);
    for_fmts!(grid(k, if t { 1000 } else { 100 }): Single, Double);
    for_fmts!(grid(k, if t { 60 } else { 6 }): X87, Quad);
    k.run()
}
