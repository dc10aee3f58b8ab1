//! C20: double-double encoding, comparison, classification and sign.
use checks::*;
use rustc_apfloat::{Category, Float};
use std::cmp::Ordering;
use std::sync::Arc;

/// Queries and sign operations on one pair of halves, canonical or not.
fn one<T: Dd>(c: &mut Ctx, bits: u128) {
    let m = cm::<T>();
    let (h, l) = halves::<T>(bits);
    let (hv, lv) = (m.decode(h), m.decode(l));
    c.states += 1;
    c.at(&"from_bits", bits, 0, 0, 0);
    let x = T::F::from_bits(bits);
    macro_rules! eq {
        ($op:literal, $got:expr, $want:expr) => {{
            c.at(&$op, bits, 0, 0, 0);
            let (g, w) = ($got, $want);
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {}{} = {:?}, expected {:?}", T::NAME, $op, showp::<T>(bits), g, w));
            }
        }};
    }
    let cat = match hv {
        V::Zero(_) => Category::Zero,
        V::Inf(_) => Category::Infinity,
        V::Nan { .. } => Category::NaN,
        V::Fin { .. } => Category::Normal,
    };
    eq!("to_bits", x.to_bits(), bits);
    eq!("category", x.category(), cat);
    eq!("is_zero", x.is_zero(), hv.is_zero());
    eq!("is_non_zero", x.is_non_zero(), !hv.is_zero());
    eq!("is_infinite", x.is_infinite(), hv.is_inf());
    eq!("is_nan", x.is_nan(), hv.is_nan());
    eq!("is_finite", x.is_finite(), hv.is_finite());
    eq!("is_finite_non_zero", x.is_finite_non_zero(), hv.is_fin_nz());
    eq!("is_negative", x.is_negative(), hv.neg());
    eq!("is_pos_zero", x.is_pos_zero(), hv.is_zero() && !hv.neg());
    eq!("is_neg_zero", x.is_neg_zero(), hv.is_zero() && hv.neg());
    eq!("is_pos_infinity", x.is_pos_infinity(), hv.is_inf() && !hv.neg());
    eq!("is_neg_infinity", x.is_neg_infinity(), hv.is_inf() && hv.neg());
    eq!("is_signaling", x.is_signaling(), m.is_snan(hv));
    let den = hv.is_fin_nz()
        && (m.subnormal(hv) || m.subnormal(lv) || !lv.is_finite() || m.add(hv, lv, Rm::Ne).0 != hv);
    eq!("is_denormal", x.is_denormal(), den);
    eq!("is_normal", x.is_normal(), hv.is_fin_nz() && !den);
    eq!("is_integer", x.is_integer(), m.is_integer(hv) && m.is_integer(lv));
    eq!("bitwise_eq", x.bitwise_eq(x), true);
    eq!("clone", { #[allow(clippy::clone_on_copy)] x.clone().to_bits() }, bits);

    // Sign operations: the high half changes sign, and so does a low half that matters.
    let signed = |flip: bool| -> (u128, Option<u128>) {
        let s = if flip { m.sign_bit() } else { 0 };
        (h ^ s, if hv.is_fin_nz() && lv.is_fin_nz() { Some(l ^ s) } else { None })
    };
    let sign = |c: &mut Ctx, op: &'static &'static str, got: u128, flip: bool| {
        let (wh, wl) = signed(flip);
        let (gh, gl) = halves::<T>(got);
        c.transitions += 1;
        let lo_ok = match wl {
            Some(w) => gl == w,
            // a zero, infinite or NaN low half, or one that does not matter: only its sign may change
            None => gl == l || gl == l ^ m.sign_bit(),
        };
        if gh != wh || !lo_ok {
            c.fail(format!("{} {}{} = {}", T::NAME, op, showp::<T>(bits), showp::<T>(got)));
        }
    };
    c.at(&"neg", bits, 0, 0, 0);
    sign(c, &"neg", (-x).to_bits(), true);
    c.at(&"abs", bits, 0, 0, 0);
    sign(c, &"abs", x.abs().to_bits(), hv.neg());
    for n in [false, true] {
        c.at(&"copy_sign", bits, n as u128, 0, 0);
        let s = mk::<T>(if n { m.sign_bit() } else { 0 } | h & 1, 0);
        sign(c, &"copy_sign", x.copy_sign(s).to_bits(), n != hv.neg());
        let d = mk::<T>(if n { m.sign_bit() } else { 0 }, if n { 0 } else { m.sign_bit() });
        sign(c, &"copy_sign", x.copy_sign(d).to_bits(), n != hv.neg());
    }
    if c.failed() {
        return;
    }
    // the extremes
    let hm = m.vlargest(hv.neg());
    let lw = lo_of_largest::<T>(hv.neg());
    eq!("is_largest", x.is_largest(), hv == hm && lv == lw);
    eq!("is_smallest", x.is_smallest(), hv == m.vsmallest(hv.neg()) && l == 0);
    let sn = smallest_normalized::<T>();
    eq!("is_smallest_normalized", x.is_smallest_normalized(), hv == sn.with_neg(hv.neg()) && l == 0);
    c.outcome(x.category() as u128 | (den as u128) << 3 | (x.is_integer() as u128) << 4 | (hv.neg() as u128) << 5 | (h & 0xfff) << 8);
    c.traces += 1;
    c.sample(|| format!("{} queries and sign operations on {}", T::NAME, showp::<T>(bits)));
}

/// The largest low half below half a unit of the largest high half.
fn lo_of_largest<T: Dd>(neg: bool) -> V {
    let m = cm::<T>();
    // next_down(largest * 2^-(p+1))
    let (s, e) = m.largest();
    let (v, st) = m.round(false, s, e - (m.p as i32 + 1), false, Rm::Ne);
    assert!(st == 0);
    match v {
        V::Fin { m: s, e, .. } if s > 1 << (m.p - 1) => m.round(neg, s - 1, e, false, Rm::Ne).0,
        _ => m.next_up(v.negate()).negate().with_neg(neg),
    }
}
fn smallest_normalized<T: Dd>() -> V {
    let m = cm::<T>();
    m.round(false, 1, m.emin + m.p as i32, false, Rm::Ne).0
}

fn constants<T: Dd>(c: &mut Ctx) {
    let m = cm::<T>();
    c.states += 1;
    macro_rules! eq {
        ($op:literal, $got:expr, $want:expr) => {{
            c.at(&$op, 0, 0, 0, 0);
            let (g, w) = ($got, $want);
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {} = {:x?}, expected {:x?}", T::NAME, $op, g, w));
            }
        }};
    }
    let pair = |h: V, l: V| m.encode(h) | m.encode(l) << m.bits;
    let z = V::Zero(false);
    eq!("BITS", T::F::BITS, 2 * m.bits as usize);
    eq!("PRECISION", T::F::PRECISION, 2 * m.p as usize);
    eq!("MAX_EXP", T::F::MAX_EXP as i32, m.emax);
    eq!("MIN_EXP", T::F::MIN_EXP as i32, m.emin + m.p as i32);
    eq!("ZERO", T::F::ZERO.to_bits(), 0);
    eq!("default", T::F::default().to_bits(), 0);
    eq!("INFINITY", T::F::INFINITY.to_bits(), pair(m.inf(false), z));
    eq!("NAN", T::F::NAN.to_bits(), pair(m.qnan(), z));
    eq!("qnan", T::F::qnan(None).to_bits(), pair(m.qnan(), z));
    eq!("SMALLEST", T::F::SMALLEST.to_bits(), pair(m.vsmallest(false), z));
    eq!("largest", T::F::largest().to_bits(), pair(m.vlargest(false), lo_of_largest::<T>(false)));
    eq!("smallest_normalized", T::F::smallest_normalized().to_bits(), pair(smallest_normalized::<T>(), z));
    for p in [0u128, 1, 2, 3, m.quiet_bit() - 1, m.quiet_bit(), m.quiet_bit() | 1, u128::MAX] {
        c.at(&"qnan", p, 0, 0, 0);
        let q = T::F::qnan(Some(p));
        let (s, hq) = (T::F::snan(Some(p)), <T::C as Sub>::F::qnan(Some(p)).to_bits());
        eq!("qnan payload", q.to_bits(), hq);
        eq!("snan payload", s.to_bits(), <T::C as Sub>::F::snan(Some(p)).to_bits());
        eq!("snan is signaling", s.is_signaling() && s.is_nan() && !q.is_signaling() && q.is_nan(), true);
    }
    // The documented extremes are extremes of the canonical, respectively of the normal pairs.
    eq!("largest is canonical", canonical(m, m.vlargest(false), lo_of_largest::<T>(false)), true);
    c.traces += 1;
}

/// Ranks of exact sums.
struct Ranked {
    bits: u128,
    nan: bool,
    zero: bool,
    neg: bool,
    fin_nz: bool,
    rank: i64,
    abs: i64,
}
fn ranked<T: Dd>(v: &[u128]) -> Vec<Ranked> {
    let m = cm::<T>();
    let sums: Vec<Sum> = v
        .iter()
        .map(|&b| {
            let (h, l) = halves::<T>(b);
            let h = m.decode(h);
            match h {
                // beyond every finite sum
                V::Inf(neg) => Sum { neg, mag: model::big::Big::from(1).shl((m.emax + 2 - m.elsb()) as usize) },
                _ => pair_sum(m, h, m.decode(l)),
            }
        })
        .collect();
    let rank = |abs: bool| -> Vec<i64> {
        let s: Vec<Sum> = if abs { sums.iter().map(|s| Sum { neg: false, mag: s.mag.clone() }).collect() } else { sums.clone() };
        let mut ix: Vec<usize> = (0..v.len()).collect();
        ix.sort_by(|&a, &b| s[a].cmp(&s[b]));
        let mut r = vec![0i64; v.len()];
        let mut cur = 0;
        for w in 1..ix.len() {
            if s[ix[w]].cmp(&s[ix[w - 1]]) != Ordering::Equal {
                cur += 1;
            }
            r[ix[w]] = cur;
        }
        r
    };
    let (r, a) = (rank(false), rank(true));
    v.iter()
        .enumerate()
        .map(|(i, &bits)| {
            let h = m.decode(halves::<T>(bits).0);
            Ranked { bits, nan: h.is_nan(), zero: h.is_zero(), neg: h.neg(), fin_nz: h.is_fin_nz(), rank: r[i], abs: a[i] }
        })
        .collect()
}

fn compare<T: Dd>(c: &mut Ctx, a: &Ranked, b: &Ranked) {
    let (x, y) = (T::F::from_bits(a.bits), T::F::from_bits(b.bits));
    c.states += 1;
    let want = if a.nan || b.nan { None } else { Some(a.rank.cmp(&b.rank)) };
    macro_rules! eq {
        ($op:literal, $got:expr, $want:expr) => {{
            c.at(&$op, a.bits, b.bits, 0, 0);
            let (g, w) = ($got, $want);
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {}({}, {}) = {:?}, expected {:?}", T::NAME, $op, showp::<T>(a.bits), showp::<T>(b.bits), g, w));
            }
        }};
    }
    eq!("partial_cmp", x.partial_cmp(&y), want);
    eq!("eq", x == y, want == Some(Ordering::Equal));
    eq!("ne", x != y, want != Some(Ordering::Equal));
    eq!("lt", x < y, want == Some(Ordering::Less));
    eq!("le", x <= y, matches!(want, Some(Ordering::Less | Ordering::Equal)));
    eq!("gt", x > y, want == Some(Ordering::Greater));
    eq!("ge", x >= y, matches!(want, Some(Ordering::Greater | Ordering::Equal)));
    if a.fin_nz && b.fin_nz {
        eq!("cmp_abs_normal", x.cmp_abs_normal(y), a.abs.cmp(&b.abs));
    }
    eq!("bitwise_eq", x.bitwise_eq(y), a.bits == b.bits);
    for (k, op) in [(0, "min"), (1, "max"), (2, "minimum"), (3, "maximum")] {
        let less = k % 2 == 0;
        let both = [a.bits, b.bits];
        let ok: &[u128] = match want {
            None if a.nan && b.nan => &both,
            None if a.nan == (k < 2) => &both[1..],
            None => &both[..1],
            Some(Ordering::Equal) if a.zero && k >= 2 && a.neg != b.neg => {
                if a.neg == less { &both[..1] } else { &both[1..] }
            }
            Some(Ordering::Equal) => &both,
            Some(o) => if (o == Ordering::Less) == less { &both[..1] } else { &both[1..] },
        };
        c.at(&"min/max", a.bits, b.bits, 0, k as u64);
        let got = match k {
            0 => x.min(y),
            1 => x.max(y),
            2 => x.minimum(y),
            _ => x.maximum(y),
        }
        .to_bits();
        c.transitions += 1;
        if !ok.contains(&got) {
            return c.fail(format!("{} {}({}, {}) = {}", T::NAME, op, showp::<T>(a.bits), showp::<T>(b.bits), showp::<T>(got)));
        }
    }
    c.traces += 1;
    c.outcome(want.map_or(9, |o| o as i8 as u128) & 15 | (a.bits & 0xff) << 8 | (a.bits >> (cm::<T>().bits) & 0xff) << 16);
    c.sample(|| format!("{} order of {} and {} is {:?}", T::NAME, showp::<T>(a.bits), showp::<T>(b.bits), want));
}

fn pairs<T: Dd>(k: &mut Check, tag: &str, what: &str, all: Vec<u128>, some: usize) {
    let rows = thin(all.clone(), some);
    let what = format!("{} canonical pairs ({what}) against {} of them, in both orders", all.len(), rows.len());
    let chunk = rows.len().div_ceil(256);
    let n = rows.len().div_ceil(chunk) as u64;
    let mut every = all;
    every.extend(rows.iter());
    let nrows = rows.len();
    let r = Arc::new(ranked::<T>(&every));
    k.job(format!("{tag} {}", T::NAME), true, what, n, move |i, c| {
        let cols = r.len() - nrows;
        for a in r[cols..].iter().skip(i as usize * chunk).take(chunk) {
            for b in &r[..cols] {
                compare::<T>(c, a, b);
                if cols != nrows {
                    compare::<T>(c, b, a);
                }
                if c.failed() {
                    return;
                }
            }
        }
    });
}

/// All canonical pairs, those with a zero low half once with each sign of it.
fn canon<T: Dd>() -> Vec<u128> {
    let m = cm::<T>();
    let mut v = vec![];
    for (h, l) in canonicals::<T>() {
        v.push(h | l << m.bits);
        if l == 0 && m.decode(h).is_fin_nz() {
            v.push(h | m.sign_bit() << m.bits);
        }
    }
    v
}

fn every_bits<T: Dd>(k: &mut Check) {
    let n = 1u64 << cm::<T>().bits;
    k.job(format!("all bits {}", T::NAME), true, "every pair of halves", n, move |h, c| {
        for l in 0..n {
            one::<T>(c, h as u128 | (l as u128) << cm::<T>().bits);
            if c.failed() {
                return;
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C20");
    let t = k.thorough();
    every_bits::<DD7>(k);
    every_bits::<DD8>(k);
    every_bits::<DD9>(k);
    every_bits::<DD10>(k);
    // every pair of a lattice of Double halves (mostly not canonical), and the canonical ones
    let v = values(&model::DOUBLE, if t { 60 } else { 6 }, true);
    let w = v.clone();
    k.job("halves DDouble", true, format!("all pairs of {} Double halves", v.len()), v.len() as u64, move |i, c| {
        for &l in &w {
            one::<DDouble>(c, w[i as usize] | l << 64);
            if c.failed() {
                return;
            }
        }
    });
    let v = dd_values::<DDouble>(if t { 120 } else { 20 }, true);
    let w = v.clone();
    k.job("canonical DDouble", true, format!("{} structured canonical double-doubles", v.len()), v.len().div_ceil(64) as u64, move |i, c| {
        for &b in w.iter().skip(i as usize * 64).take(64) {
            one::<DDouble>(c, b);
            if c.failed() {
                return;
            }
        }
    });
    macro_rules! constants {
        ($($t:ident),*) => {$(
            k.job(concat!("constants ", stringify!($t)), true, "constants and NaN constructors", 1, |_, c| constants::<$t>(c));
        )*};
    }
    constants!(DD7, DD8, DD9, DD10, DDouble);
    pairs::<DD7>(k, "compare", "all", canon::<DD7>(), usize::MAX);
    pairs::<DD8>(k, "compare", "all", canon::<DD8>(), if t { usize::MAX } else { 500 });
    pairs::<DD9>(k, "compare", "all", canon::<DD9>(), if t { 8000 } else { 200 });
    pairs::<DD10>(k, "compare", "all", canon::<DD10>(), if t { 2000 } else { 50 });
    pairs::<DDouble>(k, "compare", "lattice", dd_values::<DDouble>(if t { 20 } else { 5 }, false), if t { 3000 } else { 300 });
    each::<DDouble>(k, "every exponent", "canonical pairs with the high half at every exponent", dd_range_values::<DDouble>(if t { 1000 } else { 100 }), one::<DDouble>);
    dd_range_pairs::<DDouble, Sum>(k, "compare", if t { 40 } else { 8 }, |c, a, b| {
        let r = ranked::<DDouble>(&[a.bits, b.bits, a.bits ^ 1 << 63 ^ (((a.bits >> 64) & !(1 << 63) != 0) as u128) << 127]);
        compare::<DDouble>(c, &r[0], &r[1]);
        compare::<DDouble>(c, &r[2], &r[1]);
        compare::<DDouble>(c, &r[0], &r[0]);
    });
    each::<DDouble>(k, "around integers", "canonical pairs, the high half at exponents -3..=130, the low half at every distance to 110", dd_grid_values::<DDouble>(if t { 100 } else { 10 }), one::<DDouble>);
    k.run()
}
