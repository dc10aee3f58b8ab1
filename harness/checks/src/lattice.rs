//! Structured finite subsets ("lattices") of the values of formats too large to enumerate.

use model::{mask, Fmt};

/// Significands (with integer bit) of precision p: every run length of ones/zeros from either end,
/// single bits, alternating and fixed irregular patterns. `step` thins out the positions.
pub fn sigs(p: u32, step: usize) -> Vec<u128> {
    let top = 1u128 << (p - 1);
    let all = mask(p);
    let mut v = vec![top, all, top | 1, all - 1, top | 2, top | 3, all - 2, all - 3];
    let mut ks: Vec<u32> = (1..p - 1).step_by(step).collect();
    for k in [1, 2, 3, p / 4, p / 2 - 1, p / 2, p / 2 + 1, p - 4, p - 3, p - 2] {
        if k >= 1 && k < p - 1 {
            ks.push(k);
        }
    }
    ks.sort();
    ks.dedup();
    for k in ks {
        v.push(top | 1 << k); // one extra bit
        v.push(top | mask(k)); // ones at the bottom
        v.push(all ^ mask(k)); // ones at the top
        v.push(all ^ 1 << k); // one hole
    }
    for x in patterns() {
        v.push(top | x & all);
        v.push(top | (x >> 7) & all & !1);
        v.push(top | x & all & !mask(p / 2)); // half width
    }
    v.retain(|&m| m >> (p - 1) == 1);
    v.sort();
    v.dedup();
    v
}

/// Fixed bit patterns: alternating and irregular.
pub fn patterns() -> Vec<u128> {
    vec![
        0x5555_5555_5555_5555_5555_5555_5555_5555,
        0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa,
        0x3333_3333_3333_3333_3333_3333_3333_3333,
        0xf0f0_f0f0_f0f0_f0f0_f0f0_f0f0_f0f0_f0f0,
        0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835,
        0x243f_6a88_85a3_08d3_1319_8a2e_0370_7344,
        0xb504_f333_f9de_6484_597d_89b3_754a_be9f,
    ]
}

/// A short list of significands.
pub fn few_sigs(p: u32) -> Vec<u128> {
    let top = 1u128 << (p - 1);
    let all = mask(p);
    let mut v = vec![
        top,
        top | 1,
        top | 2,
        top | 3,
        all,
        all - 1,
        all - 2,
        top | top >> 1,
        top | top >> 1 | 1,
        all ^ top >> 1,
        top | mask(p / 2),
        all ^ mask(p / 2),
        top | 1 << (p / 2),
        top | mask(p - 2),
    ];
    for x in &patterns()[3..6] {
        v.push(top | x & all);
    }
    v.retain(|&m| m >> (p - 1) == 1);
    v.sort();
    v.dedup();
    v
}

pub fn top_exp(m: &Fmt) -> u128 {
    m.exp_mask()
}

/// Encode a normal from biased exponent and significand with integer bit.
pub fn enc(m: &Fmt, neg: bool, be: u128, sig: u128) -> u128 {
    let f = if m.x87 { sig } else { sig & mask(m.p - 1) };
    (if neg { m.sign_bit() } else { 0 }) | be << m.sig_bits() | f
}
/// Encode a subnormal (or zero) from its significand.
pub fn enc_sub(m: &Fmt, neg: bool, sig: u128) -> u128 {
    (if neg { m.sign_bit() } else { 0 }) | sig & mask(m.p - 1)
}

/// Biased exponents at which something changes.
pub fn exps(m: &Fmt, rich: bool) -> Vec<u128> {
    let top = top_exp(m) as i64;
    let bias = (top - 1) / 2;
    let p = m.p as i64;
    let mut v: Vec<i64> = vec![1, 2, 3, bias - 1, bias, bias + 1, top - 1, top - 2];
    if rich {
        for d in [p - 2, p - 1, p, p + 1, p + 2, 2 * p, 2 * p + 1, p / 2] {
            v.extend([1 + d, bias + d, bias - d, top - 1 - d]);
        }
        v.extend([4, bias + 2, bias - 2, bias / 2, bias + bias / 2, top - 3]);
        if !m.x87 && m.bits <= 64 || true {
            v.extend([bias + 31, bias + 32, bias + 63, bias + 64, bias + 126, bias + 127, bias + 128]);
        }
    }
    if m.nanonly {
        v.push(top);
    }
    v.retain(|&e| e >= 1 && e <= if m.nanonly { top } else { top - 1 });
    v.sort();
    v.dedup();
    v.into_iter().map(|e| e as u128).collect()
}

/// Zeros, infinities and NaNs of both signs.
pub fn specials(m: &Fmt) -> Vec<u128> {
    let mut v = vec![];
    let s = m.sign_bit();
    let mut pos = vec![0u128];
    let e = m.exp_mask() << m.sig_bits();
    if m.nanonly {
        pos.push(e | mask(m.p - 1));
    } else {
        let i = if m.x87 { 1u128 << 63 } else { 0 };
        pos.push(e | i); // inf
        let qb = m.quiet_bit();
        pos.push(e | i | qb);
        pos.push(e | i | qb | 1);
        pos.push(e | i | mask(m.p - 1));
        pos.push(e | i | 1);
        pos.push(e | i | qb >> 1);
        pos.push(e | i | (qb - 1));
    }
    for x in pos {
        v.push(x);
        v.push(x | s);
    }
    v.sort();
    v.dedup();
    v
}

/// Unsupported x87 encodings.
pub fn x87_odd() -> Vec<u128> {
    let mut v = vec![];
    for be in [0u128, 1, 2, 16383, 16384, 32766, 32767] {
        for f in [0u128, 1, 1 << 62, 1 << 62 | 1, mask(63), 1 << 63, 1 << 63 | 1, 3 << 62, mask(64)] {
            for s in [0u128, 1] {
                let b = s << 79 | be << 64 | f;
                if model::X87.unsupported(b) {
                    v.push(b);
                }
            }
        }
    }
    v
}

/// A value lattice with roughly controllable size.
pub fn values(m: &Fmt, nsig: usize, rich_exps: bool) -> Vec<u128> {
    if m.bits <= 12 {
        return (0..1u128 << m.bits).collect();
    }
    let all = sigs(m.p, 1);
    let sg: Vec<u128> = if nsig >= all.len() {
        all
    } else {
        let few = few_sigs(m.p);
        let mut v = few.clone();
        if nsig > few.len() {
            let k = nsig - few.len();
            v.extend((0..k).map(|i| all[i * all.len() / k]));
        } else {
            v.truncate(nsig);
        }
        v.sort();
        v.dedup();
        v
    };
    let mut v = specials(m);
    for &e in &exps(m, rich_exps) {
        for &s in &sg {
            v.push(enc(m, false, e, s));
            v.push(enc(m, true, e, s));
        }
    }
    // subnormals: all shorter widths of the same patterns
    for &s in &sg {
        v.push(enc_sub(m, false, s & mask(m.p - 1)));
        v.push(enc_sub(m, true, s & mask(m.p - 1)));
        for k in [1, 2, 3, m.p / 2, m.p - 3, m.p - 2] {
            let t = s >> k;
            v.push(enc_sub(m, false, t));
            v.push(enc_sub(m, true, t));
        }
    }
    for t in 0..8 {
        v.push(enc_sub(m, false, t));
        v.push(enc_sub(m, true, t));
    }
    v.retain(|&b| m.encode(m.decode(b)) == b);
    v.sort();
    v.dedup();
    // simplest first: by magnitude pattern is fine; keep numeric order
    v
}

/// Significands with a kept part, a half bit and a tail cut at every position.
pub fn cut_sigs(p: u32) -> Vec<u128> {
    let top = 1u128 << (p - 1);
    let all = mask(p);
    let mut v = vec![];
    for k in 1..p {
        // k low bits are cut off: half bit at k-1, tail below
        for kept in [top, top | 1 << k, all & !mask(k), (all & !mask(k)) ^ 1 << k, top | patterns()[5] & all & !mask(k)] {
            for half in [0, 1u128 << (k - 1)] {
                for tail in [0, 1, mask(k - 1), 1u128 << (k - 1) >> 1] {
                    let m = kept | half | tail & mask(k - 1);
                    if m >> (p - 1) == 1 && m <= all {
                        v.push(m);
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// NaN encodings: every single payload bit and every run of payload bits from either end, quiet and
/// signaling, both signs.
pub fn nan_payloads(m: &Fmt) -> Vec<u128> {
    let base = m.exp_mask() << m.sig_bits() | if m.x87 { 1 << 63 } else { 0 };
    let mut v = vec![];
    if m.nanonly {
        v.push(base | mask(m.p - 1));
    } else {
        let w = m.p - 2; // payload bits
        let mut pays = vec![0u128, mask(w)];
        for k in 0..w {
            pays.extend([1u128 << k, mask(k), mask(w) & !mask(k), mask(w) ^ 1 << k]);
        }
        for p in patterns() {
            pays.push(p & mask(w));
        }
        for p in pays {
            v.push(base | m.quiet_bit() | p);
            if p != 0 {
                v.push(base | p);
            }
        }
    }
    v.sort();
    v.dedup();
    let n = v.len();
    for i in 0..n {
        v.push(v[i] | m.sign_bit());
    }
    v
}
