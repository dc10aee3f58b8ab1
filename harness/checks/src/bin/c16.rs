//! C16: reading hexadecimal strings.
use checks::*;
use rustc_apfloat::Float;

fn compare<T: Sub>(c: &mut Ctx, s: &str, neg: bool, digits: &[u8], e: i64) {
    let m = &T::M;
    c.states += 1;
    for rm in RMS {
        c.at_text(&"from_str_r", s, rm as u64);
        let r = match T::F::from_str_r(s, rnd(rm)) {
            Ok(r) => r,
            Err(e) => return c.fail(format!("{} from_str_r({}) {:?} rejected: {}", m.name, clip(s), rm, e.0)),
        };
        let (got, gs) = (r.value.to_bits(), st(r.status));
        let (wv, ws) = m.hex(neg, digits, e, rm);
        c.transitions += 1;
        if !same(m, got, wv) || gs != ws {
            return c.fail(format!(
                "{} from_str_r({}) {:?} = {} {}, expected {:?} {}",
                m.name, clip(s), rm, showv(m, got), show_st(gs), wv, show_st(ws)
            ));
        }
        c.outcome(got ^ (m.bits as u128) << 100);
    }
    c.traces += 1;
    c.sample(|| format!("{} from_str_r({}) agrees in 5 modes", m.name, clip(s)));
}

fn hexd(x: u128) -> Vec<u8> {
    format!("{x:x}").bytes().map(|b| (b as char).to_digit(16).unwrap() as u8).collect()
}
fn show(d: &[u8], upper: bool) -> String {
    d.iter().map(|&x| { let c = std::char::from_digit(x as u32, 16).unwrap(); if upper { c.to_ascii_uppercase() } else { c } }).collect()
}
/// Spell digits * 2^e with the point after `pt` digits (None: no point).
fn spell(neg: bool, d: &[u8], e: i64, pt: Option<usize>, style: usize) -> String {
    let s = show(d, style & 1 != 0);
    let sg = if neg { "-" } else if style & 4 != 0 { "+" } else { "" };
    let x = if style & 2 != 0 { "0X" } else { "0x" };
    let p = if style & 1 != 0 { 'P' } else { 'p' };
    let (body, e) = match pt {
        None => (s, e),
        Some(i) => (format!("{}.{}", &s[..i], &s[i..]), e + 4 * (s.len() - i) as i64),
    };
    if style & 8 != 0 {
        format!("{sg}{x}{body}{p}{e:+}")
    } else if style & 16 != 0 {
        format!("{sg}{x}{body}{p}{}000{}", if e < 0 { "-" } else { "" }, e.abs())
    } else {
        format!("{sg}{x}{body}{p}{e}")
    }
}

/// Every short digit string at every exponent.
fn short<T: Sub>(k: &mut Check, maxd: u128, step: i64) {
    let m = T::M;
    let (lo, hi) = (m.elsb() as i64 - 14, m.emax as i64 + 4);
    k.job(
        format!("short {}", m.name),
        true,
        format!("all integers 0..={maxd:#x} x every {step}th binary exponent {lo}..={hi} (and the neighbourhoods of both ends)"),
        (hi - lo + 1) as u64,
        move |i, c| {
            let e = lo + i as i64;
            if !(i as i64 % step == 0 || e < m.elsb() as i64 + 20 || e > hi - 20) {
                return;
            }
            for d in 0..=maxd {
                let dg = hexd(d);
                let st = (d as usize).wrapping_mul(7) + i as usize;
                let neg = d % 3 == 1;
                let pt = if d % 2 == 0 { None } else { Some(st % (dg.len() + 1)) };
                compare::<T>(c, &spell(neg, &dg, e, pt, st), neg, &dg, e);
                if c.failed() {
                    return;
                }
            }
        },
    );
}

/// Digit strings cut at the internal capacity: (head bits) then zeros/f-runs then one digit.
fn tails<T: Sub>(k: &mut Check, heads: Vec<u128>, zs: Vec<usize>, exps: Vec<i64>) {
    let m = T::M;
    let n = heads.len() as u64;
    k.job(
        format!("tails {}", m.name),
        true,
        format!(
            "{n} heads (boundary significands and midpoints) x 4 nibble alignments x runs of 0/f of {} lengths up to {} x final digits 0,1,7,8,9,f x {} exponents",
            zs.len(), zs[zs.len() - 1], exps.len()
        ),
        n,
        move |i, c| {
            let h = heads[i as usize];
            for al in 0..4u32 {
                // the head in units of its last nibble
                let base: Vec<u8> = if blen(h) + al as i32 <= 128 {
                    hexd(h << al)
                } else {
                    let mut d = hexd(h >> (4 - al));
                    d.push((h << al & 15) as u8);
                    d
                };
                for &z in &zs {
                    for fill in [0u8, 15] {
                        for tail in [0u8, 1, 7, 8, 9, 15] {
                            let mut d = base.clone();
                            d.extend(std::iter::repeat(fill).take(z));
                            d.push(tail);
                            // the value's leading bit has exponent x
                            for (j, &x) in exps.iter().enumerate() {
                                let lead = blen(d[0] as u128) as i64 - 1 + 4 * (d.len() as i64 - 1);
                                let e = x - lead;
                                let st = j + z + al as usize + tail as usize;
                                let neg = st % 3 == 0;
                                let pt = if st % 4 == 0 { None } else { Some((st * 13) % (d.len() + 1)) };
                                compare::<T>(c, &spell(neg, &d, e, pt, st), neg, &d, e);
                                if c.failed() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        },
    );
}

fn tails_for<T: Sub>(k: &mut Check, nh: usize, deep: bool) {
    let m = T::M;
    let p = m.p;
    let mut hs = vec![];
    for s in few_sigs(p).into_iter().take(nh) {
        hs.push(s);
        hs.push(s << 1 | 1); // midpoint above
        hs.push(s << 2 | 1);
        hs.push(s << 2 | 3);
    }
    // few bits: everything below is tail
    hs.extend([1, 3, 0x11, 0x80000001]);
    hs.sort();
    hs.dedup();
    let mn = m.emin as i64;
    let el = m.elsb() as i64;
    let mut exps = vec![0, mn, mn - 1, mn - 2, el + 2, el + 1, el, el - 1, el - 2, m.emax as i64 - 1, m.emax as i64, m.emax as i64 + 1];
    if deep {
        exps.extend([mn + 1, (mn + el) / 2, el + 3, el + 7, 5, -70]);
    }
    exps.sort();
    exps.dedup();
    let zs: Vec<usize> = if deep { (0..48).chain([63, 64, 65, 100, 200]).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 12, 16, 19, 20, 21, 22, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 64] };
    tails::<T>(k, hs, zs, exps);
}

/// A single non-zero digit at every position behind the kept ones.
fn lone_digit<T: Sub>(k: &mut Check, total: usize) {
    let m = T::M;
    let p = m.p;
    let hs: Vec<u128> = vec![1 << (p - 1), mask(p), 1 << (p - 1) | 1, (1 << (p - 1) | 1) << 1 | 1, mask(p) << 1 | 1];
    k.job(format!("lone digit {}", m.name), true, format!("every digit 1..f at every position up to {total} behind 5 heads, 3 exponents"), total as u64, move |i, c| {
        for &h in &hs {
            for al in 0..4 {
                let base = hexd(if blen(h) + al <= 128 { h << al } else { h });
                for dg in 1..16u8 {
                    let mut d = base.clone();
                    d.extend(std::iter::repeat(0).take(i as usize));
                    d.push(dg);
                    d.extend([0, 0]);
                    let lead = blen(d[0] as u128) as i64 - 1 + 4 * (d.len() as i64 - 1);
                    for (j, x) in [0, m.emin as i64 - 1, m.emax as i64].into_iter().enumerate() {
                        let e = x - lead;
                        let neg = dg % 2 == 0;
                        compare::<T>(c, &spell(neg, &d, e, if j == 1 { Some(i as usize % d.len()) } else { None }, j + al as usize), neg, &d, e);
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        }
    });
}

fn spellings<T: Sub>(k: &mut Check) {
    let m = T::M;
    let mut nums: Vec<(u128, i64)> = vec![];
    for d in [1u128, 0x8, 0xf, 0x1f, 0x123456789abcdef, 0xfedcba9876543210fedcba987654321, 0x10001, 0x8000000000000001, 0xffffffff8, 0] {
        for e in [0i64, -4, 1, m.emin as i64 - 40, m.elsb() as i64, m.elsb() as i64 - 1, m.emax as i64 - blen(d) as i64 + 1, m.emax as i64] {
            nums.push((d, e));
        }
    }
    k.job(
        format!("spellings {}", m.name),
        true,
        "point at every position, 0-40 leading and trailing zeros, signs, letter case, exponent zeros",
        nums.len() as u64,
        move |i, c| {
            let (x, e) = nums[i as usize];
            for lz in [0usize, 1, 2, 31, 32, 33, 40] {
                for tz in [0usize, 1, 2, 31, 32, 33, 40] {
                    let mut d = vec![0u8; lz];
                    d.extend(hexd(x));
                    d.extend(std::iter::repeat(0).take(tz));
                    let e = e - 4 * tz as i64;
                    for pt in 0..=d.len() + 1 {
                        let pt = if pt > d.len() { None } else { Some(pt) };
                        for q in 0..4 {
                            let st = (lz + tz * 3 + pt.unwrap_or(0)).wrapping_mul(5) + q * 9;
                            let neg = q % 2 == 1;
                            compare::<T>(c, &spell(neg, &d, e, pt, st), neg, &d, e);
                            if c.failed() {
                                return;
                            }
                        }
                    }
                }
            }
        },
    );
}

/// Every binary exponent of the leading digit, with digit strings of several lengths.
fn every_exponent<T: Sub>(k: &mut Check, lens: Vec<usize>) {
    let m = T::M;
    let (lo, hi) = (m.elsb() as i64 - 6, m.emax as i64 + 5);
    let chunk = 16;
    k.job(
        format!("every exponent {}", m.name),
        true,
        format!("every binary exponent {lo}..={hi} of the leading digit x {} significands of up to {} digits", lens.len(), lens[lens.len() - 1]),
        ((hi - lo) as u64 + chunk) / chunk,
        move |i, c| {
            for x in (0..chunk as i64).map(|j| lo + i as i64 * chunk as i64 + j) {
                for (j, &n) in lens.iter().enumerate() {
                    let d = nibbles((x as u64) << 8 ^ j as u64, n);
                    let lead = blen(d[0] as u128) as i64 - 1 + 4 * (n as i64 - 1);
                    let st = (x + 7 * j as i64).rem_euclid(32) as usize;
                    let neg = (x + j as i64) % 3 == 0;
                    for pt in [None, Some((st * 5 + j) % (n + 1))] {
                        compare::<T>(c, &spell(neg, &d, x - lead, pt, st), neg, &d, x - lead);
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
}
/// `n` scrambled digits, the first and the last not zero.
fn nibbles(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ seed >> 7;
    let mut d: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 60) as u8
        })
        .collect();
    for q in [0, n - 1] {
        d[q] = d[q].max(1);
    }
    d
}

/// Every number of digits with the point at every position.
fn every_layout<T: Sub>(k: &mut Check, top: usize, zeros: usize) {
    let m = T::M;
    k.job(
        format!("every layout {}", m.name),
        true,
        format!("1..={top} digits x point at every position or absent x 0..={zeros} leading zeros (all up to 3, then one), leading exponents 1 and the least normal one - 1"),
        top as u64,
        move |i, c| {
            let n = i as usize + 1;
            for lz in [0, 1, 2, 3, (n * 8) % (zeros + 1)] {
                let mut d = vec![0; lz];
                d.extend(nibbles((n * 1000 + lz) as u64, n));
                let lead = blen(d[lz] as u128) as i64 - 1 + 4 * (n as i64 - 1);
                for pt in 0..=d.len() + 1 {
                    let x = if pt % 2 == 0 { 1 } else { m.emin as i64 - 1 };
                    let pt = if pt > d.len() { None } else { Some(pt) };
                    let st = n + lz;
                    compare::<T>(c, &spell(st % 3 == 0, &d, x - lead, pt, st), st % 3 == 0, &d, x - lead);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

fn extremes<T: Sub>(k: &mut Check) {
    let m = T::M;
    let mut exps: Vec<String> = vec![];
    for b in [1i128 << 14, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 214748364, 2147483640, 100000, 1 << 30, 1_000_000_000_000] {
        for d in [-300, -129, -128, -127, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 9, 64, 113, 128, 300] {
            exps.push((b + d).to_string());
        }
    }
    exps.push("9".repeat(60));
    exps.push(format!("{}7", "0".repeat(60)));
    let long = format!("0.{}1", "0".repeat(5000));
    let big = format!("1{}", "0".repeat(5000));
    let heads: Vec<String> = ["1", "8", "f", "0.1", ".0000000001", "1000000", "123.456", "0", "0.000", "ffffffffffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffff8", "0.00000000000000000000000000000000000000000001"].iter().map(|s| s.to_string()).chain([long, big]).collect();
    let n = exps.len() as u64;
    k.job(format!("exponent limits {}", m.name), true, format!("{} exponents at integer limits x both signs x {} significands", exps.len(), heads.len()), n, move |i, c| {
        for sg in ["", "-", "+"] {
            for h in &heads {
                for es in ["", "-", "+"] {
                    let s = format!("{sg}0x{h}p{es}{}", exps[i as usize]);
                    let Some(text::Lit::Hex(neg, d, kk)) = text::parse(&s) else { panic!("model rejects {s}") };
                    compare::<T>(c, &s, neg, &d, kk);
                    if c.failed() {
                        return;
                    }
                }
            }
        }
    });
}

/// Digit strings of very different lengths whose exponent brings the value back into range.
fn long_zeros<T: Sub>(k: &mut Check, big: bool) {
    let m = T::M;
    let ns = long_counts(big);
    // heads and the exponents of their leading bit
    let mut vals: Vec<(u128, i64)> = vec![];
    let p = m.p;
    for (h, xs) in [
        (1u128, vec![0i64, m.emin as i64, m.elsb() as i64, m.elsb() as i64 - 1, m.emax as i64, m.emax as i64 + 1]),
        (mask(p) << 1 | 1, vec![0, m.emin as i64 - 1, m.emax as i64]),
        ((1 << (p - 1) | 1) << 1 | 1, vec![3, m.elsb() as i64 + 1]),
    ] {
        for x in xs {
            vals.push((h, x));
        }
    }
    let n = ns.len() as u64;
    k.job(
        format!("long zeros {}", m.name),
        true,
        format!("runs of zeros of {n} lengths up to {} in front of the digits (behind the point), and behind them (before the point), the exponent bringing the value back to {} values around the format's limits", ns[ns.len() - 1], vals.len()),
        n,
        move |i, c| {
            let z = "0".repeat(ns[i as usize]);
            for &(h, x) in &vals {
                let d = hexd(h);
                let e = x - (blen(h) as i64 - 1);
                let w = 4 * z.len() as i64;
                let t = show(&d, false);
                let (f, tail) = t.split_at(1);
                let k = d.len() as i64;
                for s in [
                    format!("0x0.{z}{t}p{}", e + w + 4 * k),
                    format!("-0x.{z}{t}p{:+}", e + w + 4 * k),
                    format!("0x{t}{z}p{}", e - w),
                    format!("-0x{t}{z}.p{}", e - w),
                    format!("0x{t}{z}.{z}p{}", e - w),
                    format!("0x{z}{f}.{tail}{z}p{}", e + 4 * (k - 1)),
                    format!("-0x{z}.{z}{t}P{}", e + w + 4 * k),
                    format!("0x{t}p{}{z}{}", if e < 0 { "-" } else { "+" }, e.abs()),
                ]
                .into_iter()
                {
                    let neg = s.starts_with('-');
                    compare::<T>(c, &s, neg, &d, e);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

fn main() {
    let k = &mut Check::new("C16");
    let t = k.thorough();
    for_fmts!(extremes(k): T6E3, E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    for_fmts!(long_zeros(k, t): T6E3, Single, Double, Quad);
    for_fmts!(spellings(k): E4M3FN, Half, Single, Double, X87, Quad);
    for_fmts!(short(k, if t { 0xffff } else { 0xfff }, 1): T6E3, N6E3, T8E3, T8E4, T9E4, N9E4, T12E6, E5M2, E4M3FN);
    for_fmts!(short(k, if t { 0x3ffff } else { 0x1fff }, 1): Half);
    for_fmts!(short(k, if t { 0xffff } else { 0xfff }, if t { 1 } else { 3 }): BFloat);
    for_fmts!(short(k, if t { 0xffff } else { 0xff }, 1): Single);
    for_fmts!(short(k, if t { 0xfff } else { 0x1f }, if t { 1 } else { 3 }): Double);
    for_fmts!(short(k, if t { 0xff } else { 0x1f }, if t { 1 } else { 101 }): X87, Quad);
    for_fmts!(lone_digit(k, 80): E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    for_fmts!(tails_for(k, if t { 100 } else { 5 }, t): T6E3, N6E3, E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    every_exponent::<Quad>(k, vec![1, 5, 28, 29, 31, 33, 60]);
    every_exponent::<X87>(k, vec![1, 5, 16, 17, 19, 32, 40]);
    every_exponent::<Double>(k, (1..=40).collect());
    every_exponent::<Single>(k, (1..=40).collect());
    for_fmts!(every_layout(k, if t { 500 } else { 300 }, 90): E5M2, Half, BFloat, Single, Double, X87, Quad);
    k.run()
}
