//! C21: double-double sums, differences and products.
use checks::*;
use model::Rm;
use rustc_apfloat::Float;
use std::cmp::Ordering;

/// Error bounds in units of 2^-2p: of a sum relative to |a| + |b|, of a product relative to |a * b|
/// (plus `MUL_ABS` least subnormals), to nearest and in the other modes.
const ADD: [i128; 2] = [4, 32];
const MUL: [i128; 2] = [6, 24];
const MUL_ABS: [i128; 2] = [3, 4];

/// add, sub, mul of canonical operands in the given modes.
fn addmul<T: Dd, I: Int>(modes: &[Rm], c: &mut Ctx, a: &Val<I>, b: &Val<I>) {
    let m = cm::<T>();
    let (x, y) = (T::F::from_bits(a.bits), T::F::from_bits(b.bits));
    let p2 = 2 * m.p as usize;
    let unit = -m.elsb() as usize;
    c.states += 1;
    for k in 0..3 * modes.len() as u64 {
        let (op, rm) = (k % 3, modes[k as usize / 3]);
        let directed = !matches!(rm, Rm::Ne | Rm::Na);
        let (add, mul, mul_abs) = (ADD[directed as usize], MUL[directed as usize], MUL_ABS[directed as usize]);
        let name: &'static &'static str = [&"add_r", &"sub_r", &"mul_r"][op as usize];
        c.at(name, a.bits, b.bits, 0, k);
        let r = match op {
            0 => x.add_r(y, rnd(rm)),
            1 => x.sub_r(y, rnd(rm)),
            _ => x.mul_r(y, rnd(rm)),
        };
        c.transitions += 1;
        let (status, r) = (st(r.status), r.value);
        let (rh, rl) = vals::<T>(r);
        let bh = if op == 1 { b.h.negate() } else { b.h };
        macro_rules! bad {
            ($($w:tt)*) => {
                return c.fail(format!("{} {:?} {}({}, {}) = {} {}: {}", T::NAME, rnd(rm), name, showp::<T>(a.bits), showp::<T>(b.bits), showp::<T>(r.to_bits()), show_st(status), format!($($w)*)))
            };
        }
        // special values
        let special = if op < 2 {
            match (a.h, bh) {
                (V::Nan { .. }, _) | (_, V::Nan { .. }) => Some((m.qnan(), 0)),
                (V::Inf(s), V::Inf(t)) if s != t => Some((m.qnan(), model::INVALID)),
                (V::Inf(s), _) | (_, V::Inf(s)) => Some((V::Inf(s), 0)),
                (V::Zero(s), V::Zero(t)) => Some((V::Zero(if s == t { s } else { rm == Rm::Down }), 0)),
                _ => None,
            }
        } else {
            let s = a.h.neg() != b.h.neg();
            match (a.h, b.h) {
                (V::Nan { .. }, _) | (_, V::Nan { .. }) => Some((m.qnan(), 0)),
                (V::Inf(_), V::Zero(_)) | (V::Zero(_), V::Inf(_)) => Some((m.qnan(), model::INVALID)),
                (V::Inf(_), _) | (_, V::Inf(_)) => Some((V::Inf(s), 0)),
                (V::Zero(_), _) | (_, V::Zero(_)) => Some((V::Zero(s), 0)),
                _ => None,
            }
        };
        if let Some((want, ws)) = special {
            let ok = if want.is_nan() { rh.is_nan() } else { rh == want && rl.is_zero() };
            if !ok || status != ws && !(m.is_snan(a.h) || m.is_snan(b.h)) {
                bad!("expected {:?} {}", want, show_st(ws));
            }
            c.traces += 1;
            continue;
        }
        let by = if op == 1 { b.x.negate() } else { b.x.clone() };
        // the exact result, and the obtained one, in the same unit
        let exact = if op < 2 { a.x.add(&by) } else { a.x.mul(&by) };
        if rh.is_nan() {
            bad!("a number is expected");
        }
        let overflowed = status & model::OVERFLOW != 0;
        if rh.is_inf() != overflowed || status & (model::INVALID | model::DIVZERO) != 0 {
            bad!("wrong status");
        }
        // largest high half, less a few units: no result below overflows
        let big = I::pair(m, m.vlargest(false), V::Zero(false));
        let big = if op < 2 { big } else { big.shl(unit) };
        if rh.is_inf() {
            // |exact| >= largest * (1 - 2^(3-p))
            let lim = if m.p > 3 { big.times((1 << (m.p - 3)) - 1) } else { big.times(0) };
            let inwards = match rm {
                Rm::Zero => true,
                Rm::Up => rh.neg(),
                Rm::Down => !rh.neg(),
                _ => false,
            };
            if inwards {
                bad!("overflow is rounded inwards");
            }
            if rh.neg() != exact.neg() || exact.abs().shl(m.p as usize - 3).order(&lim) == Ordering::Less || !rl.is_zero() {
                bad!("the exact result is a number");
            }
            if measuring() {
                eprintln!("inf {} op{} {}", T::NAME, op, exact.approx() / big.approx());
            }
            c.traces += 1;
            continue;
        }
        // the high half is the sum rounded to nearest, or one of its neighbours
        let rounded = |rm| m.add(rh, rl, rm).0 == rh;
        let split = match rm {
            Rm::Ne => canonical(m, rh, rl),
            Rm::Na => canonical(m, rh, rl) || rh.is_fin_nz() && rl.is_finite() && rounded(Rm::Na),
            _ => canonical(m, rh, rl) || rh.is_fin_nz() && rl.is_finite() && (rounded(Rm::Up) || rounded(Rm::Down)),
        };
        if !split {
            bad!("not canonical");
        }
        if exact.is_zero() && op < 2 && rh != V::Zero(rm == Rm::Down) {
            bad!("the sign of an exact zero");
        }
        // |exact| against largest * (1 +- 2^(2-p))
        let near = |x: i128| exact.abs().shl(m.p as usize - 2).order(&big.times((1 << (m.p - 2)) + x));
        if directed && near(-1) == Ordering::Greater {
            // beyond the largest number, or nearly
            if near(1) == Ordering::Greater
                && (rh != m.vlargest(exact.neg()) || !canonical(m, rh, rl))
            {
                bad!("the largest number is expected");
            }
            if rh.neg() != exact.neg() {
                bad!("wrong sign");
            }
            c.traces += 1;
            continue;
        }
        let got = I::pair(m, rh, rl);
        let got = if op < 2 { got } else { got.shl(unit) };
        let err = got.add(&exact.negate()).abs();
        let lim = if op < 2 {
            a.x.abs().add(&b.x.abs()).times(add)
        } else {
            exact.abs().times(mul).add(&I::pair(m, m.vsmallest(false), V::Zero(false)).times(mul_abs).shl(unit + p2))
        };
        if measuring() && !err.is_zero() {
            let e = err.shl(p2).approx();
            let r = if op < 2 { e / (lim.approx() / add as f64) } else { e / exact.abs().approx() };
            let abs = (e - exact.abs().times(mul).approx()) / I::pair(m, m.vsmallest(false), V::Zero(false)).shl(unit + p2).approx();
            measure(T::NAME, op, r, abs);
        }
        if err.shl(p2).order(&lim) == Ordering::Greater {
            bad!("error above the bound");
        }
        // Operands without low halves have exact sums and (above underflow) exact products.
        if !directed && a.l.is_zero() && b.l.is_zero() && !err.is_zero() {
            // the low half of the product is a multiple of the least subnormal
            let tiny = op == 2 && {
                let k = |v: V| match v {
                    V::Fin { e, .. } => e,
                    _ => 0,
                };
                k(a.h) + k(b.h) < m.elsb()
            };
            if !tiny {
                bad!("not exact");
            }
        }
        c.outcome(r.to_bits() ^ (op as u128) << 120);
        c.traces += 1;
    }
    c.sample(|| format!("{} sum, difference and product of {} and {} within the bounds", T::NAME, showp::<T>(a.bits), showp::<T>(b.bits)));
}
fn measuring() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var_os("VERIF_MEASURE").is_some())
}
fn measure(n: &'static str, op: u64, rel: f64, abs: f64) {
    use std::sync::Mutex;
    static M: Mutex<Vec<(&'static str, u64, f64, f64)>> = Mutex::new(vec![]);
    let mut v = M.lock().unwrap();
    if let Some(e) = v.iter_mut().find(|e| e.0 == n && e.1 == op) {
        if rel > e.2 && abs < 0.0 || abs > e.3 {
            if abs < 0.0 {
                e.2 = e.2.max(rel);
            }
            e.3 = e.3.max(abs);
            eprintln!("{:?}", e);
        }
    } else {
        v.push((n, op, 0.0, -1.0));
    }
}

fn main() {
    let k = &mut Check::new("C21");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    let all = usize::MAX;
    // sums, differences, products
    const NE: &[Rm] = &[Rm::Ne];
    const OTHER: &[Rm] = &[Rm::Na, Rm::Zero, Rm::Up, Rm::Down];
    dd_pairs::<DD7, i128>(k, "add mul", "all", canon_bits::<DD7>(), all, |c, a, b| addmul::<DD7, i128>(NE, c, a, b));
    dd_pairs::<DD8, i128>(k, "add mul", "all", canon_bits::<DD8>(), q(600, all), |c, a, b| addmul::<DD8, i128>(NE, c, a, b));
    dd_pairs::<DD9, i128>(k, "add mul", "all", canon_bits::<DD9>(), q(100, 4000), |c, a, b| addmul::<DD9, i128>(NE, c, a, b));
    dd_pairs::<DD10, i128>(k, "add mul", "all", canon_bits::<DD10>(), q(20, 1000), |c, a, b| addmul::<DD10, i128>(NE, c, a, b));
    let dv = dd_values::<DDouble>(q(6, 20), true);
    dd_pairs::<DDouble, Sum>(k, "add mul", "lattice", dv, q(24, 600), |c, a, b| addmul::<DDouble, Sum>(NE, c, a, b));
    dd_pairs::<DD7, i128>(k, "other modes", "all", canon_bits::<DD7>(), q(600, all), |c, a, b| addmul::<DD7, i128>(OTHER, c, a, b));
    dd_pairs::<DD8, i128>(k, "other modes", "all", canon_bits::<DD8>(), q(150, all), |c, a, b| addmul::<DD8, i128>(OTHER, c, a, b));
    dd_pairs::<DD9, i128>(k, "other modes", "all", canon_bits::<DD9>(), q(30, 1000), |c, a, b| addmul::<DD9, i128>(OTHER, c, a, b));
    dd_pairs::<DD10, i128>(k, "other modes", "all", canon_bits::<DD10>(), q(8, 300), |c, a, b| addmul::<DD10, i128>(OTHER, c, a, b));
    let dv = dd_values::<DDouble>(q(4, 20), true);
    dd_pairs::<DDouble, Sum>(k, "other modes", "lattice", dv, q(10, 200), |c, a, b| addmul::<DDouble, Sum>(OTHER, c, a, b));
    dd_range_pairs::<DDouble, Sum>(k, "add mul", q(30, 300), |c, a, b| addmul::<DDouble, Sum>(NE, c, a, b));
    dd_range_pairs::<DDouble, Sum>(k, "other modes", q(8, 60), |c, a, b| addmul::<DDouble, Sum>(OTHER, c, a, b));
    k.run()
}
