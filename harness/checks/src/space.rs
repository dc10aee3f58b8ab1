//! The state spaces (operand tuples) that several checks share.

use crate::*;
use std::sync::Arc;

pub type F1 = fn(&mut Ctx, u128);
pub type F2 = fn(&mut Ctx, u128, u128);
pub type F3 = fn(&mut Ctx, u128, u128, u128);

/// Every value of a format.
pub fn all_values<T: Sub>(k: &mut Check, tag: &str, f: F1) {
    let n = 1u128 << T::M.bits;
    let chunk = (n / 512).clamp(1, 1 << 16);
    k.job(format!("{tag} all {}", T::M.name), true, "every bit pattern", (n / chunk) as u64, move |i, c| {
        for a in i as u128 * chunk..(i as u128 + 1) * chunk {
            f(c, a);
            if c.failed() {
                return;
            }
        }
    });
}

/// A rich lattice of values.
pub fn lat_values<T: Sub>(k: &mut Check, tag: &str, nsig: usize, f: F1) {
    let mut v = values(&T::M, nsig, true);
    if T::M.x87 {
        v.extend(x87_odd());
    }
    let chunk = v.len().div_ceil(256).max(1);
    let n = v.len().div_ceil(chunk) as u64;
    k.job(format!("{tag} lattice {}", T::M.name), true, format!("{} structured values", v.len()), n, move |i, c| {
        for &a in v.iter().skip(i as usize * chunk).take(chunk) {
            f(c, a);
            if c.failed() {
                return;
            }
        }
    });
}

/// Significands of the whole `sigs` list at every exponent of the format.
pub fn every_exponent<T: Sub>(k: &mut Check, tag: &str, sg: Vec<u128>, f: F1) {
    let m = T::M;
    let top = m.exp_mask() as u64;
    let chunk = (top / 512).max(1);
    k.job(
        format!("{tag} every exponent {}", m.name),
        true,
        format!("{} significands at each of the {} exponents, both signs", sg.len(), top),
        top / chunk + 1,
        move |i, c| {
            for be in i * chunk..(i + 1) * chunk {
                if be >= top && !(m.nanonly && be == top) {
                    return;
                }
                for &s in &sg {
                    for neg in [false, true] {
                        let a = if be == 0 { enc_sub(&m, neg, s) } else { enc(&m, neg, be as u128, s) };
                        f(c, a);
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

/// A fixed, well-mixed function of `x`.
pub fn scramble(x: u64) -> u128 {
    let mut x = x as u128;
    for _ in 0..3 {
        x = (x ^ x >> 61).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835).wrapping_add(0x632be59bd9b4e019);
    }
    x
}
/// A finite value with biased exponent `be` (clamped to the range) and a significand picked by `seed`:
/// full-width, or with long runs, or a power of two with a few low bits.
pub fn pick(m: &Fmt, be: i64, seed: u64) -> u128 {
    let h = scramble(seed);
    let top = 1u128 << (m.p - 1);
    let s = match h & 7 {
        0 => top | (h >> 8 & 3),
        1 => mask(m.p) ^ (h >> 8 & 3),
        2 => top | mask((h >> 8 & 0xff) as u32 % m.p),
        3 => mask(m.p) ^ mask((h >> 8 & 0xff) as u32 % m.p),
        4 => top | 1 << ((h >> 8 & 0xff) as u32 % m.p) | (h >> 16 & 1),
        _ => (h >> (128 - m.p)) | top,
    };
    let neg = h >> 3 & 1 != 0;
    let be = be.clamp(0, m.exp_mask() as i64 - 1);
    if be == 0 {
        enc_sub(m, neg, s >> (1 + (h >> 4 & 7) as u32 * (m.p - 2) / 8))
    } else {
        enc(m, neg, be as u128, s)
    }
}

/// A NaN with a payload, sign and quiet bit picked by `seed`.
pub fn pick_nan(m: &Fmt, seed: u64) -> u128 {
    let h = scramble(seed);
    let base = m.exp_mask() << m.sig_bits() | if m.x87 { 1 << 63 } else { 0 } | if h & 1 != 0 { m.sign_bit() } else { 0 };
    if m.nanonly {
        return base | mask(m.p - 1);
    }
    let w = m.p - 2;
    let a = match h >> 1 & 3 {
        0 => h >> (128 - w),
        1 => (h >> (128 - w)) & (scramble(!seed) >> (128 - w)),
        2 => (h >> (128 - w)) | (scramble(!seed) >> (128 - w)),
        _ => (h >> (128 - w)) >> ((h >> 8 & 0xff) as u32 % w),
    } & mask(w);
    if h >> 3 & 1 != 0 || a == 0 {
        base | m.quiet_bit() | a
    } else {
        base | a
    }
}

/// Biased exponents of operand pairs that visit, as `i` runs over `0..top + p`, every absolute exponent,
/// every distance of exponents, every exponent of a product and of a quotient.
pub fn range_exps(top: i64, p: i64, i: i64, r: u64) -> [(i64, i64); 16] {
    let bias = (top - 1) / 2;
    let h = scramble((i as u64) << 8 | r);
    let near = (h >> 16) as i64 & 0xff_ffff;
    let u = (h >> 64) as i64 & 0xff_ffff;
    // factors of a product of exponent i (from p below the range), and operands of such a quotient
    let e = i - p;
    let (lo, hi) = ((e + bias - (top - 1)).max(0), (e + bias).clamp(0, top - 1));
    let a = lo + u % (hi - lo + 1).max(1);
    let (qlo, qhi) = ((e - bias).max(0), (top - 1).min(e - bias + top - 1).max(0));
    let q = qlo + u % (qhi - qlo + 1).max(1);
    [
        (i, i),
        (i, i + 1),
        (i, i - 1),
        (i, i - 2 - near % (p - 2)),
        (i, i + 2 + near % (p - 2)),
        (i, i - p + near % 5),
        (i, i + p - near % 5),
        (i, i - near % (3 * p)),
        (top - 1, top - 1 - i),
        (top - 1 - i, top - 1),
        (i, u % top),
        (u % top, i),
        (a, e + bias - a),
        (e + bias - a, a),
        (q, q - (e - bias)),
        (q, q - (e - bias)),
    ]
}
pub fn range_pairs<T: Sub>(k: &mut Check, tag: &str, n: usize, f: F2) {
    let m = T::M;
    let top = m.exp_mask() as i64;
    let p = m.p as i64;
    let chunk = (top / 1024).max(1);
    k.job(
        format!("{tag} range {}", m.name),
        true,
        format!("{n} x 16 pairs for each i in 0..{}: near pairs at exponent i, distance i from either end, exponent i of a product and of a quotient", top + p),
        ((top + p) / chunk + 1) as u64,
        move |it, c| {
            for i in it as i64 * chunk..((it as i64 + 1) * chunk).min(top + p) {
                for r in 0..n as u64 {
                    for (j, (x, y)) in range_exps(top, p, i, r).into_iter().enumerate() {
                        let sd = ((i as u64) << 8 | r) << 8 | (j as u64) << 1;
                        f(c, pick(&m, x, sd), pick(&m, y, sd | 1));
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

/// Operand triples that visit every exponent of the product with addends at every kind of distance.
pub fn range_triples<T: Sub>(k: &mut Check, tag: &str, n: usize, f: F3) {
    let m = T::M;
    let top = m.exp_mask() as i64;
    let bias = (top - 1) / 2;
    let p = m.p as i64;
    let chunk = (top / 1024).max(1);
    k.job(
        format!("{tag} range {}", m.name),
        true,
        format!("{n} x 12 triples for each exponent i of the product from {p} below the range to {p} above: addends at distances 0, 1, -1, within 3p, any, and every distance from the largest and the smallest product"),
        ((top + 2 * p) / chunk + 1) as u64,
        move |it, c| {
            for i in it as i64 * chunk..((it as i64 + 1) * chunk).min(top + 2 * p) {
                for r in 0..n as u64 {
                    let h = scramble((i as u64) << 8 | r);
                    let near = (h >> 16) as i64 & 0xff_ffff;
                    let u = (h >> 64) as i64 & 0xff_ffff;
                    let fac = |e: i64| {
                        let (lo, hi) = ((e + bias - (top - 1)).max(0), (e + bias).clamp(0, top - 1));
                        let a = lo + u % (hi - lo + 1).max(1);
                        (a, e + bias - a)
                    };
                    let e = i - p;
                    let z = (i - p).clamp(0, top - 1);
                    let es = [
                        (e, e),
                        (e, e + 1),
                        (e, e - 1),
                        (e, e - p + near % 5),
                        (e, e + p - near % 5),
                        (e, e - near % (3 * p)),
                        (e, e + near % (3 * p)),
                        (e, u % top),
                        (top - 1, z),
                        (z - p, top - 1),
                        (1 - p, z),
                        (e, 0),
                    ];
                    for (j, (e, d)) in es.into_iter().enumerate() {
                        let sd = ((i as u64) << 8 | r) << 8 | (j as u64) << 2;
                        let (x, y) = fac(e);
                        f(c, pick(&m, x, sd), pick(&m, y, sd | 1), pick(&m, d, sd | 2));
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

/// `n` scrambled significands at every exponent, signs alternating.
pub fn scrambled<T: Sub>(k: &mut Check, tag: &str, n: u64, f: F1) {
    let m = T::M;
    let top = m.exp_mask() as u64;
    let chunk = (top / 2048).max(1);
    k.job(
        format!("{tag} scrambled {}", m.name),
        true,
        format!("{n} scrambled significand(s) at each of the {top} exponents, signs alternating"),
        top / chunk + 1,
        move |i, c| {
            for be in i * chunk..((i + 1) * chunk).min(top) {
                for j in 0..n {
                    let s = (scramble(be << 8 | j) >> (128 - m.p)) | 1 << (m.p - 1);
                    let neg = (be ^ j) % 2 == 1;
                    f(c, if be == 0 { enc_sub(&m, neg, s) } else { enc(&m, neg, be as u128, s) });
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

pub fn all_pairs<T: Sub>(k: &mut Check, tag: &str, f: F2) {
    let n = 1u64 << T::M.bits;
    k.job(format!("{tag} pairs {}", T::M.name), true, "all operand pairs", n, move |i, c| {
        for b in 0..n {
            f(c, i as u128, b as u128);
            if c.failed() {
                return;
            }
        }
    });
}

/// All pairs over a lattice of about `2 * nsig * 40` values.
pub fn lat_pairs<T: Sub>(k: &mut Check, tag: &str, nsig: usize, f: F2) {
    let v = values(&T::M, nsig, true);
    let n = v.len();
    k.job(format!("{tag} lattice pairs {}", T::M.name), true, format!("all pairs of a {n}-value lattice"), n as u64, move |i, c| {
        let a = v[i as usize];
        for &b in v.iter() {
            f(c, a, b);
            if c.failed() {
                return;
            }
        }
    });
}

/// Every exponent gap at which two addition operands can interact.
pub fn gap_pairs<T: Sub>(k: &mut Check, tag: &str, step: usize, f: F2) {
    let m = T::M;
    let sg = if step >= 32 { few_sigs(m.p) } else { sigs(m.p, step) };
    let top = m.exp_mask() as i64;
    let maxgap = (m.p as i64 + 4).min(top - 2);
    let bias = (top - 1) / 2;
    let mut bases = vec![1, 2, bias, top - 1, top - 2];
    if m.nanonly {
        bases.push(top);
    }
    let n = sg.len();
    k.job(
        format!("{tag} exponent gaps {}", m.name),
        true,
        format!("{n} x {n} significands x all exponent gaps 0..={maxgap} x relative signs x {} base exponents, both orders", bases.len()),
        (n * n) as u64,
        move |i, c| {
            let (s1, s2) = (sg[i as usize / n], sg[i as usize % n]);
            for &b in &bases {
                for g in 0..=maxgap {
                    let (e1, e2) = if b + g < top { (b + g, b) } else { (b, b - g) };
                    if e2 < 1 || e1 > top {
                        continue;
                    }
                    for neg in [false, true] {
                        let (x, y) = (enc(&m, neg, e1 as u128, s1), enc(&m, false, e2 as u128, s2));
                        f(c, x, y);
                        f(c, y, x);
                        // the subnormal partner at the bottom
                        if b == 1 {
                            let z = enc_sub(&m, false, s2 & mask(m.p - 1));
                            f(c, x, z);
                            f(c, z, x);
                        }
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

/// Divisors (second operand) and dividends built from narrow factors so that quotients of every width occur.
pub fn factor_pairs<T: Sub>(k: &mut Check, tag: &str, step: usize, f: F2) {
    let m = T::M;
    let p = m.p;
    // odd integers of every width
    let mut odd: Vec<u128> = vec![];
    for w in (1..=p).step_by(step) {
        for x in [mask(w), 1u128 << (w - 1) | 1, patterns()[0] & mask(w) | 1 | 1 << (w - 1), patterns()[4] >> 3 & mask(w) | 1 | 1 << (w - 1), patterns()[6] >> 5 & mask(w) | 1 | 1 << (w - 1)] {
            odd.push(x);
        }
    }
    odd.sort();
    odd.dedup();
    let n = odd.len();
    let bias = (m.exp_mask() - 1) / 2;
    let top = m.exp_mask();
    let norm = move |x: u128| x << (p as i32 - blen(x)) as u32;
    k.job(
        format!("{tag} factors {}", m.name),
        true,
        format!("divisors/multiplicands d and quotients q over {n} odd integers of every width: (q, d), (q*d, d) and (q*d +- 1, d) when q*d fits"),
        n as u64,
        move |i, c| {
            let d = odd[i as usize];
            let dn = norm(d);
            for &q in &odd {
                let mut xs = vec![norm(q)];
                if blen(q) + blen(d) <= p as i32 {
                    let x = norm(q * d);
                    xs.extend([x, x + 1, x.wrapping_sub(1)]);
                } else if blen(q) + blen(d) <= 126 {
                    // truncated product: quotient close to q
                    let x = q * d;
                    let t = x >> (blen(x) - p as i32) as u32;
                    xs.extend([t, t + 1]);
                }
                for x in xs {
                    if x >> (p - 1) != 1 {
                        continue;
                    }
                    for (ex, ey) in [(bias, bias), (bias, top - 2), (1, bias), (top - 1, bias), (bias + 1, 2 * bias - 1), (2, bias + 1), (p as u128 + 2, bias)] {
                        if ex == 0 || ey == 0 || ex >= top || ey >= top {
                            continue;
                        }
                        for neg in [false, true] {
                            f(c, enc(&m, neg, ex, x), enc(&m, false, ey, dn));
                            if c.failed() {
                                return;
                            }
                        }
                    }
                    // subnormal operands: the factors themselves, unnormalised
                    if d >> (p - 1) == 0 {
                        f(c, enc(&m, false, bias, x), enc_sub(&m, true, d));
                        f(c, enc(&m, false, 2, x), enc_sub(&m, false, d));
                        f(c, enc_sub(&m, false, d), enc(&m, false, bias, x));
                        f(c, enc_sub(&m, false, d), enc(&m, false, bias + 1, x));
                        if q >> (p - 1) == 0 {
                            f(c, enc_sub(&m, false, q), enc_sub(&m, false, d));
                        }
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

/// Products whose exact value lies at every distance around the subnormal and overflow thresholds.
pub fn threshold_pairs<T: Sub>(k: &mut Check, tag: &str, step: usize, f: F2) {
    let m = T::M;
    let sg = if step >= 32 { few_sigs(m.p) } else { sigs(m.p, step) };
    let n = sg.len();
    let top = m.exp_mask() as i64;
    let bias = (top - 1) / 2;
    let p = m.p as i64;
    k.job(
        format!("{tag} thresholds {}", m.name),
        true,
        format!("{n} x {n} significands, result exponents from {} below the smallest normal to 3 above it and around the largest", p + 4),
        (n * n) as u64,
        move |i, c| {
            let (s1, s2) = (sg[i as usize / n], sg[i as usize % n]);
            // e1 + e2 - bias = target (product) ; e1 - e2 + bias = target (quotient)
            let mut targets: Vec<i64> = (-p - 4..4).collect();
            targets.extend(top - 4..top + 3);
            for t in targets {
                for e1 in [1i64, bias / 2 + 1, bias, bias + 7] {
                    for (x, y) in [(e1, t + bias - e1), (e1, e1 + bias - t), (t + bias - e1, e1)] {
                        if x < 1 || y < 1 || x >= top || y >= top {
                            continue;
                        }
                        f(c, enc(&m, false, x as u128, s1), enc(&m, t & 1 != 0, y as u128, s2));
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}

pub fn all_triples<T: Sub>(k: &mut Check, tag: &str, f: F3) {
    let n = 1u64 << T::M.bits;
    k.job(format!("{tag} triples {}", T::M.name), true, "all operand triples", n * n, move |i, c| {
        let (a, b) = ((i / n) as u128, (i % n) as u128);
        for x in 0..n {
            f(c, a, b, x as u128);
            if c.failed() {
                return;
            }
        }
    });
}

/// Addends at every alignment relative to a product.
pub fn fma_gaps<T: Sub>(k: &mut Check, tag: &str, nab: usize, nc: usize, f: F3) {
    let m = T::M;
    let all = sigs(m.p, 1);
    let pick = |n: usize| -> Vec<u128> {
        let few = few_sigs(m.p);
        let mut v: Vec<u128> = few.iter().cloned().take(n).collect();
        if n > few.len() {
            let r = n - few.len();
            v.extend((0..r).map(|i| all[i * all.len() / r]));
        }
        v.sort();
        v.dedup();
        v
    };
    let (ab, cs) = (pick(nab), pick(nc));
    let n = ab.len();
    let top = m.exp_mask() as i64;
    let bias = (top - 1) / 2;
    let p = m.p as i64;
    // base exponents (ea, eb) of the factors
    let mut bases = vec![(bias, bias), (1, bias), (bias / 2 + 1, bias / 2 + 1), (top - 1, bias), (top - 2, bias + 1), (bias - p / 2, bias / 2 + p)];
    bases.retain(|&(x, y)| x >= 1 && y >= 1 && x < top && y < top);
    bases.sort();
    bases.dedup();
    k.job(
        format!("{tag} alignments {}", m.name),
        true,
        format!("{n} x {n} factor significands x {} addends x every alignment -{}..=+{} x relative signs x {} exponent bases, and addends below the normal range", cs.len(), 2 * p + 6, p + 6, bases.len()),
        (n * n) as u64,
        move |i, c| {
            let (s1, s2) = (ab[i as usize / n], ab[i as usize % n]);
            for &(e1, e2) in &bases {
                let a = enc(&m, false, e1 as u128, s1);
                let b = enc(&m, false, e2 as u128, s2);
                let pe = e1 + e2 - bias;
                for g in -2 * p - 6..=p + 6 {
                    let ec = pe + g;
                    for &s3 in &cs {
                        for neg in [false, true] {
                            if ec >= 1 && ec < top {
                                f(c, a, b, enc(&m, neg, ec as u128, s3));
                            } else if ec <= 0 && ec > -p {
                                f(c, a, b, enc_sub(&m, neg, s3 >> (1 - ec)));
                            } else {
                                continue;
                            }
                            if c.failed() {
                                return;
                            }
                        }
                    }
                }
                // exact cancellation and its neighbours, when the product is representable
                let (v, st) = m.mul(m.decode(a), m.decode(b), Rm::Zero);
                let _ = st;
                if v.is_fin_nz() {
                    let r = m.encode(v);
                    for d in [0u128, 1, 2] {
                        for x in [r.wrapping_add(d), r.wrapping_sub(d)] {
                            for s in [0, m.sign_bit()] {
                                if x & !m.sign_bit() < m.exp_mask() << m.sig_bits() {
                                    f(c, a, b, x ^ s);
                                    f(c, a | m.sign_bit(), b, x ^ s);
                                }
                            }
                        }
                    }
                }
                if c.failed() {
                    return;
                }
            }
        },
    );
}

/// All triples over a small lattice.
pub fn lat_triples<T: Sub>(k: &mut Check, tag: &str, nsig: usize, f: F3) {
    let m = T::M;
    let mut v = specials(&m);
    let sg: Vec<u128> = few_sigs(m.p).into_iter().take(nsig).collect();
    for &e in &exps(&m, false) {
        for &s in &sg {
            v.push(enc(&m, false, e, s));
            v.push(enc(&m, true, e, s));
        }
    }
    for s in [1, 2, 3, mask(m.p - 1), 1 << (m.p - 2), mask(m.p / 2)] {
        v.push(enc_sub(&m, false, s));
        v.push(enc_sub(&m, true, s));
    }
    v.retain(|&b| m.encode(m.decode(b)) == b);
    v.sort();
    v.dedup();
    let v = Arc::new(v);
    let n = v.len() as u64;
    k.job(format!("{tag} lattice triples {}", m.name), true, format!("all triples of a {n}-value lattice"), n * n, move |i, c| {
        let (a, b) = (v[(i / n) as usize], v[(i % n) as usize]);
        for &x in v.iter() {
            f(c, a, b, x);
            if c.failed() {
                return;
            }
        }
    });
}

/// Lengths of runs of zeros: around powers of two and of ten.
pub fn long_counts(big: bool) -> Vec<usize> {
    let mut v = vec![];
    for b in [1000usize, 4096, 5000, 8192, 10_000, 16384, 20_000, 32768, 50_000, 65536, 100_000] {
        v.extend(if big { vec![b - 1, b, b + 1] } else { vec![b] });
    }
    v.extend([131_073, 250_001]);
    if big {
        v.extend([524_287, 1_000_000, 1_048_577]);
    }
    v.sort();
    v
}
