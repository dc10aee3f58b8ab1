//! C15: reading decimal strings.
use checks::*;
use model::text::{expand, pred_digits, succ_digits};
use rustc_apfloat::Float;

/// Parse `s` (known to denote ±D * 10^k) in every mode and compare.
fn check<T: Sub>(c: &mut Ctx, s: &str, neg: bool, digits: &[u8], k: i64) {
    let m = &T::M;
    let (mut d, mut k) = (digits, k);
    while d.last() == Some(&0) {
        d = &d[..d.len() - 1];
        k += 1;
    }
    while d.first() == Some(&0) {
        d = &d[1..];
    }
    let want = m.dec5(neg, d, k);
    compare::<T>(c, s, &want);
}

fn compare<T: Sub>(c: &mut Ctx, s: &str, want: &[(V, u8); 5]) {
    let m = &T::M;
    c.states += 1;
    for (i, rm) in RMS.into_iter().enumerate() {
        c.at_text(&"from_str_r", s, i as u64);
        let r = match T::F::from_str_r(s, rnd(rm)) {
            Ok(r) => r,
            Err(e) => return c.fail(format!("{} from_str_r({}) {:?} rejected: {}", m.name, clip(s), rm, e.0)),
        };
        let (got, gs) = (r.value.to_bits(), st(r.status));
        let (wv, ws) = want[i];
        c.transitions += 1;
        if !same(m, got, wv) || gs != ws {
            return c.fail(format!(
                "{} from_str_r({}) {:?} = {} {}, expected {:?} {}",
                m.name, clip(s), rm, showv(m, got), show_st(gs), wv, show_st(ws)
            ));
        }
        c.outcome(got ^ (m.bits as u128) << 100);
    }
    c.traces += 1;
    c.sample(|| format!("{} from_str_r({}) agrees in 5 modes, nearest-even = {:?}", m.name, clip(s), want[0].0));
}

fn ascii(d: &[u8]) -> String {
    d.iter().map(|x| (x + b'0') as char).collect()
}
/// d.ddddE±x
fn spell(neg: bool, d: &[u8], k: i64, style: usize) -> String {
    let a = ascii(d);
    let sg = if neg { "-" } else { "" };
    let n = a.len() as i64;
    match style {
        0 => format!("{sg}{a}e{k}"),
        1 => format!("{sg}{}.{}E{:+}", &a[..1], &a[1..], k + n - 1),
        2 => format!("{sg}.{a}e{}", k + n),
        // plain positional
        _ => {
            if k >= 0 {
                format!("{sg}{a}{}", "0".repeat(k as usize))
            } else if n + k > 0 {
                let (x, y) = a.split_at((n + k) as usize);
                format!("{sg}{x}.{y}")
            } else {
                format!("{sg}0.{}{a}", "0".repeat((-k - n) as usize))
            }
        }
    }
}

/// The boundary point m * 2^e, its decimal neighbours and its truncations.
fn boundary<T: Sub>(c: &mut Ctx, neg: bool, mm: u128, e: i32, cuts: usize, style: usize) {
    let (d, k) = expand(mm, e);
    let d: Vec<u8> = d.iter().map(|x| x - b'0').collect();
    let k = k as i64;
    check::<T>(c, &spell(neg, &d, k, style), neg, &d, k);
    // just above and just below, at several distances
    for &z in if cuts < 10 { [0usize, 60].as_slice() } else { &[0, 19, 60] } {
        let mut u = d.clone();
        u.extend(std::iter::repeat(0).take(z));
        u.push(1);
        check::<T>(c, &spell(neg, &u, k - z as i64 - 1, style), neg, &u, k - z as i64 - 1);
        let mut l = pred_digits(&d);
        l.extend(std::iter::repeat(9).take(z));
        l.push(if z == 0 { 5 } else { 9 });
        check::<T>(c, &spell(neg, &l, k - z as i64 - 1, style & 1), neg, &l, k - z as i64 - 1);
        if c.failed() {
            return;
        }
    }
    // truncated to n digits, down and up
    let n = d.len();
    let mut ns: Vec<usize> = (1..n).collect();
    if ns.len() > cuts {
        // the first half of the budget densely (where the first approximation decides), then thinner
        let h = cuts / 2;
        let rest = n - 1 - h;
        ns = (1..=h).chain((0..cuts - h).map(|i| h + 1 + i * rest / (cuts - h))).filter(|&x| x < n).collect();
        // the lengths at which an approximation of 127, 255, 511, ... bits is just about as close
        for x in [36, 37, 38, 39, 40, 75, 76, 77, 78, 152, 153, 154, 155, 306, 307, 308, 309] {
            if x < n {
                ns.push(x);
            }
        }
        ns.sort();
        ns.dedup();
    }
    for l in ns {
        let t = &d[..l];
        let kk = k + (n - l) as i64;
        check::<T>(c, &spell(neg, t, kk, 0), neg, t, kk);
        let u = succ_digits(t);
        check::<T>(c, &spell(neg, &u, kk, 1), neg, &u, kk);
        if c.failed() {
            return;
        }
    }
}

/// Every rounding boundary (values and midpoints) of a format.
fn all_boundaries<T: Sub>(k: &mut Check, both: bool, cuts: usize) {
    let m = T::M;
    let (lm, le) = m.largest();
    let top = m.encode(V::Fin { neg: false, m: lm, e: le }) as u64;
    let chunk = (top / 1024).max(1);
    k.job(
        format!("boundaries {}", m.name),
        true,
        format!("exact decimal expansion of every value and every midpoint (including half the smallest subnormal and the overflow threshold), neighbours above/below at 3 decimal distances, and up to {cuts} truncations of each expansion, rounded both ways"),
        top / chunk + 1,
        move |i, c| {
            for b in i * chunk..(i + 1) * chunk {
                if b > top {
                    return;
                }
                let (mm, e) = match m.decode(b as u128) {
                    V::Zero(_) => (0, m.elsb()),
                    V::Fin { m, e, .. } => (m, e),
                    _ => unreachable!(),
                };
                for neg in [false, true] {
                    if neg && !both && b % 8 != 3 {
                        continue;
                    }
                    if mm != 0 {
                        boundary::<T>(c, neg, mm, e, cuts, (b % 4) as usize);
                    }
                    boundary::<T>(c, neg, 2 * mm + 1, e - 1, cuts, (b / 4 % 4) as usize);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

fn lat_boundaries<T: Sub>(k: &mut Check, nsig: usize, es: Option<usize>, cuts: usize) {
    let m = T::M;
    let mut v: Vec<u128> = match es {
        None => values(&m, nsig, true),
        Some(step) => {
            let sg: Vec<u128> = few_sigs(m.p).into_iter().take(nsig).collect();
            let mut v = vec![];
            let top = m.exp_mask();
            let mut be = 0u128;
            while be < top {
                for &s in &sg {
                    v.push(if be == 0 { enc_sub(&m, false, s) } else { enc(&m, false, be, s) });
                }
                be += step as u128;
            }
            v.extend(specials(&m));
            v
        }
    };
    v.push(m.encode(m.vlargest(false)));
    v.push(0);
    v.retain(|&b| b & m.sign_bit() == 0 && m.decode(b).is_finite());
    v.sort();
    v.dedup();
    let n = v.len();
    let chunk = (n / 512).max(1);
    k.job(
        format!("boundaries lattice {} {}", m.name, if es.is_some() { "exponents" } else { "values" }),
        true,
        format!("as above for {n} structured values and the midpoints above them"),
        n.div_ceil(chunk) as u64,
        move |i, c| {
            for (j, &b) in v.iter().enumerate().skip(i as usize * chunk).take(chunk) {
                let (mm, e) = match m.decode(b) {
                    V::Zero(_) => (0, m.elsb()),
                    V::Fin { m, e, .. } => (m, e),
                    _ => unreachable!(),
                };
                let neg = j % 3 == 1;
                // styles 2 and 3 only where positional strings stay short
                if mm != 0 {
                    boundary::<T>(c, neg, mm, e, cuts, j % 4);
                }
                boundary::<T>(c, neg, 2 * mm + 1, e - 1, cuts, (j + 1) % 4);
                if c.failed() {
                    return;
                }
            }
        },
    );
}

/// Range of decimal exponents of the leading digit that matter, with a margin.
fn exp10(m: &Fmt) -> (i64, i64) {
    let lo = (m.elsb() as i64 - 2) * 30103 / 100000 - 3;
    let hi = (m.emax as i64 + 1) * 30103 / 100000 + 3;
    (lo, hi)
}

fn short<T: Sub>(k: &mut Check, maxd: u64, step: i64) {
    let m = T::M;
    let (lo, hi) = exp10(&m);
    let lo = lo - 3;
    k.job(
        format!("short {}", m.name),
        true,
        format!("all integers 1..={maxd} x every {step}th decimal exponent {lo}..={hi}"),
        ((hi - lo) / step + 1) as u64,
        move |i, c| {
            let e = lo + i as i64 * step;
            for d in 1..=maxd {
                let dg: Vec<u8> = d.to_string().bytes().map(|b| b - b'0').collect();
                let s = if d % 2 == 0 { format!("{d}e{e}") } else { format!("{}{d}E{e:+}", ["", "+", "-"][d as usize % 3]) };
                check::<T>(c, &s, d % 2 != 0 && d % 3 == 2, &dg, e);
                if c.failed() {
                    return;
                }
            }
        },
    );
}

/// Digit strings of every length.
fn long<T: Sub>(k: &mut Check, lens: Vec<usize>) {
    let m = T::M;
    let (lo, hi) = exp10(&m);
    let b = -(m.p as i64) * 30103 / 100000;
    let mut pos: Vec<i64> = vec![lo, lo + 1, lo + 2, lo + 3, lo + 4, lo + 6, 0, 1, 5, b, b - 1, 20, 40, hi - 6, hi - 5, hi - 4, hi - 3, hi - 2, hi - 1, hi];
    let mn = m.emin as i64 * 30103 / 100000;
    pos.extend([mn - 2, mn - 1, mn, mn + 1]);
    pos.sort();
    pos.dedup();
    let n = lens.len();
    k.job(
        format!("long {}", m.name),
        true,
        format!("11 digit patterns of {n} lengths up to {} x {} positions of the leading digit", lens[n - 1], pos.len()),
        n as u64,
        move |i, c| {
            let n = lens[i as usize];
            let mut pats: Vec<Vec<u8>> = vec![];
            pats.push(vec![9; n]);
            pats.push(vec![1; n]);
            pats.push(vec![5; n]);
            pats.push((0..n).map(|j| ((j + 1) % 10) as u8).collect());
            pats.push((0..n).map(|j| (9 - j % 10) as u8).collect());
            for (f, l) in [(1u8, 1u8), (1, 9), (9, 1), (4, 9), (5, 1)] {
                let mut v = vec![if f == 4 { 9 } else { 0 }; n];
                v[0] = f;
                v[n - 1] = l;
                pats.push(v);
            }
            // irregular
            let mut x = 0x9e37_79b9u64;
            pats.push((0..n).map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 33) as u8 % 10
            }).collect());
            for (j, p) in pats.iter().enumerate() {
                if p.iter().all(|&d| d == 0) {
                    continue;
                }
                for (q, &top) in pos.iter().enumerate() {
                    let k = top - n as i64 + 1;
                    let neg = (j + q) % 3 == 0;
                    check::<T>(c, &spell(neg, p, k, (j + q + n) % 4), neg, p, k);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

/// Equivalent spellings of the same number.
fn spellings<T: Sub>(k: &mut Check) {
    let m = T::M;
    let (lo, hi) = exp10(&m);
    let mut nums: Vec<(String, i64)> = vec![];
    for d in ["1", "5", "7", "10", "12", "99", "100", "125", "1024", "65504", "65519", "65520", "1000001", "33554431", "123456789012345678901", "9007199254740993", "340282366920938463463374607431768211456", "10000000000000000000000000000000000000001"] {
        for e in [0, -1, -3, 2, lo + 1, lo + 2, lo + 3, hi - 5, hi - 3, hi - 1, -30, 17] {
            nums.push((d.to_string(), e));
        }
    }
    nums.push(("0".into(), 0));
    nums.push(("0".into(), 400));
    nums.push(("0".into(), -400));
    let n = nums.len() as u64;
    k.job(
        format!("spellings {}", m.name),
        true,
        "point at every position, 0-40 leading and trailing zeros, exponent digits with zeros, signs, e/E, empty exponent",
        n,
        move |i, c| {
            let (ds, e) = &nums[i as usize];
            let d: Vec<u8> = ds.bytes().map(|b| b - b'0').collect();
            let mut dd: &[u8] = &d;
            let mut kk = *e;
            while dd.last() == Some(&0) {
                dd = &dd[..dd.len() - 1];
                kk += 1;
            }
            let zeros: &[usize] = if m.p > 100 { &[0, 1, 40] } else { &[0, 1, 2, 25, 40] };
            for neg in [false, true] {
                let want = m.dec5(neg, dd, kk);
                let signs: &[&str] = if neg { &["-"] } else { &["", "+"] };
                for &lz in zeros {
                    for &tz in zeros {
                        let s = format!("{}{}{}", "0".repeat(lz), ds, "0".repeat(tz));
                        for pt in 0..=s.len() + 1 {
                            let (body, ex) = if pt == s.len() + 1 {
                                (s.clone(), *e - tz as i64)
                            } else {
                                (format!("{}.{}", &s[..pt], &s[pt..]), *e - tz as i64 + (s.len() - pt) as i64)
                            };
                            for sg in signs {
                                let exs: Vec<String> = match (pt + lz) % 4 {
                                    0 => vec![format!("e{ex}")],
                                    1 => vec![format!("E{ex:+}")],
                                    2 => vec![format!("e{}0000{}", if ex < 0 { "-" } else { "" }, ex.abs())],
                                    _ => vec![format!("E{}{}", if ex < 0 { "-" } else { "+00" }, ex.abs())],
                                };
                                for x in &exs {
                                    compare::<T>(c, &format!("{sg}{body}{x}"), &want);
                                }
                                if ex == 0 {
                                    for x in ["", "e", "E+", "e-", "e0", "e-0", "E+0000000000000000000000000"] {
                                        compare::<T>(c, &format!("{sg}{body}{x}"), &want);
                                    }
                                }
                                if c.failed() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        },
    );
}

/// Exponents at and beyond the machine integer limits.
fn extremes<T: Sub>(k: &mut Check) {
    let m = T::M;
    let mut exps: Vec<String> = vec![];
    for b in [1i128 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 214748364, 2147483640, 100000, 16777216, 1 << 30, 1_000_000_000_000] {
        for d in [-11, -2, -1, 0, 1, 2, 11] {
            exps.push((b + d).to_string());
        }
    }
    exps.push("9".repeat(60));
    exps.push(format!("{}7", "0".repeat(60)));
    // combined limits of the early exits: (e +- 1) * 42039 around 12655 * emax etc. are in `long`
    let heads = ["1", "9", "0.1", ".0000000001", "1000000", "123.456", "0", "0.000", "99999999999999999999999999999999999999999999", "0.00000000000000000000000000000000000000000001"];
    let n = exps.len() as u64;
    k.job(format!("exponent limits {}", m.name), true, format!("{} exponents at integer limits x both signs x {} significands", exps.len(), heads.len()), n, move |i, c| {
        for sg in ["", "-", "+"] {
            for h in heads {
                for es in ["", "-", "+"] {
                    let s = format!("{sg}{h}e{es}{}", exps[i as usize]);
                    let Some(text::Lit::Dec(neg, d, kk)) = text::parse(&s) else { panic!("model rejects {s}") };
                    let want = m.dec5(neg, &d, kk);
                    compare::<T>(c, &s, &want);
                    if c.failed() {
                        return;
                    }
                }
            }
        }
    });
}

/// Digit strings of very different lengths whose exponent brings the value back into range.
fn long_zeros<T: Sub>(k: &mut Check, big: bool) {
    let m = T::M;
    let ns = long_counts(big);
    // The decimals just below and above powers of two at the limits, and plain ones.
    let (l10, h10) = exp10(&m);
    let mut vals: Vec<(Vec<u8>, i64)> = vec![];
    for d in [&[1u8][..], &[9, 9, 9], &[1, 7, 5, 0, 1]] {
        for k in [0, -3, l10, l10 + 1, l10 + 3, h10 - 1, h10 - 3, h10] {
            vals.push((d.to_vec(), k));
        }
    }
    let n = ns.len() as u64;
    k.job(
        format!("long zeros {}", m.name),
        true,
        format!("runs of zeros of {n} lengths up to {} in front of the digits (behind the point), and behind them (before the point), the exponent bringing the value back to {} values around the format's limits", ns[ns.len() - 1], vals.len()),
        n,
        move |i, c| {
            let z = "0".repeat(ns[i as usize]);
            let w = z.len() as i64;
            for (d, e) in &vals {
                let (d, e) = (&d[..], *e);
                let t = ascii(d);
                let k = d.len() as i64;
                let (f, tail) = t.split_at(1);
                let want = m.dec5(false, d, e);
                let wantn = m.dec5(true, d, e);
                for s in [
                    format!("0.{z}{t}e{}", e + w + k),
                    format!("-.{z}{t}e{:+}", e + w + k),
                    format!("{t}{z}e{}", e - w),
                    format!("-{t}{z}.e{}", e - w),
                    format!("{t}{z}.{z}E{}", e - w),
                    format!("{z}{f}.{tail}{z}e{}", e + k - 1),
                    format!("-{z}.{z}{t}E{}", e + w + k),
                    format!("{t}e{}{z}{}", if e < 0 { "-" } else { "+" }, e.abs()),
                ] {
                    compare::<T>(c, &s, if s.starts_with('-') { &wantn } else { &want });
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

/// Very long digit strings: a last digit, or a run of nines, that decides tens of thousands of
/// digits behind a boundary.
fn very_long<T: Sub>(k: &mut Check, lens: Vec<usize>) {
    let m = T::M;
    let n = lens.len() as u64;
    k.job(
        format!("very long {}", m.name),
        true,
        format!("values and midpoints, exactly or followed by zeros and a 1, or just below them (999...), in {n} lengths up to {} digits", lens[lens.len() - 1]),
        n,
        move |i, c| {
            let n = lens[i as usize];
            let p = m.p;
            for (j, (s, e)) in [
                ((1u128 << (p - 1) | 1) << 1 | 1, -(p as i32)),
                (mask(p) << 1 | 1, 1),
                (1, m.elsb() - 1),
                (3, m.elsb() - 1),
                ((1 << (p - 1)) | 1, m.emin + 2 - p as i32),
            ]
            .into_iter()
            .enumerate()
            {
                if m.p > 60 && e < -1000 {
                    continue;
                }
                let (d, k) = expand(s, e);
                let d: Vec<u8> = d.iter().map(|b| b - b'0').collect();
                if d.len() + 2 > n {
                    continue;
                }
                let pad = n - d.len();
                let mut above = d.clone();
                above.resize(n, 0);
                above[n - 1] = 1;
                let mut below = d.clone();
                let mut q = below.len() - 1;
                while below[q] == 0 {
                    below[q] = 9;
                    q -= 1;
                }
                below[q] -= 1;
                below.resize(n, 9);
                if below[0] == 0 {
                    below.remove(0);
                }
                for (t, v) in [above, below].into_iter().enumerate() {
                    let neg = (j + t) % 2 == 1;
                    let k = k as i64 - pad as i64;
                    check::<T>(c, &spell(neg, &v, k, j % 4), neg, &v, k);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

/// Every decimal exponent of the wide formats, with significands of several lengths.
fn every_exponent<T: Sub>(k: &mut Check, lens: Vec<usize>) {
    let m = T::M;
    let (lo, hi) = exp10(&m);
    let (lo, hi) = (lo - 60, hi + 1);
    let chunk = 16;
    k.job(
        format!("every exponent {}", m.name),
        true,
        format!("every decimal exponent {lo}..={hi} x {} significands of up to {} digits", lens.len(), lens[lens.len() - 1]),
        ((hi - lo) as u64 + chunk) / chunk,
        move |i, c| {
            for e in (0..chunk as i64).map(|j| lo + i as i64 * chunk as i64 + j) {
                for (j, &n) in lens.iter().enumerate() {
                    let mut x = (e as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ j as u64;
                    let mut d: Vec<u8> = (0..n)
                        .map(|_| {
                            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            (x >> 33) as u8 % 10
                        })
                        .collect();
                    for q in [0, n - 1] {
                        d[q] = d[q].max(1);
                    }
                    let neg = (e + j as i64) % 3 == 0;
                    check::<T>(c, &spell(neg, &d, e, j % 4), neg, &d, e);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

fn main() {
    let k = &mut Check::new("C15");
    let t = k.thorough();
    k.model_cross_checks = host::check_decimals();
    for_fmts!(extremes(k): T6E3, E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    let ls = if t { vec![5_001, 9_999, 16_390, 19_733, 32_770, 40_001, 65_537, 100_003] } else { vec![3_001, 9_999] };
    for_fmts!(very_long(k, ls.clone()): T6E3, Single, Double, Quad);
    for_fmts!(every_exponent(k, if t { vec![1, 2, 3, 5, 8, 16, 17, 19, 20, 27, 33, 34, 35, 36, 38, 39, 40, 60, 77, 120] } else { vec![1, 4, 19, 36, 40] }): X87, Quad);
    for_fmts!(every_exponent(k, if t { (1..=120).collect() } else { (1..=40).collect() }): Single, Double);
    for_fmts!(long_zeros(k, t): T6E3, Single, Double, Quad);
    for_fmts!(spellings(k): E4M3FN, Half, Single, Double, Quad);
    for_fmts!(short(k, if t { 99_999 } else { 1999 }, 1): T6E3, N6E3, T8E3, T8E4, T9E4, N9E4, E5M2, E4M3FN, Half, BFloat);
    for_fmts!(short(k, if t { 99_999 } else { 299 }, 1): Single);
    for_fmts!(short(k, if t { 9_999 } else { 59 }, 1): Double);
    for_fmts!(short(k, if t { 199 } else { 19 }, if t { 7 } else { 83 }): X87, Quad);
    for_fmts!(all_boundaries(k, true, 1000): T6E3, T7E3, T7E4, T8E3, T8E4, N6E3, N7E3, N8E3, N7E4, E5M2, E4M3FN, T9E4, N9E4, T10E4, T10E5, N10E5);
    for_fmts!(all_boundaries(k, true, if t { 1000 } else { 20 }): T11E5, T12E5, T12E6);
    for_fmts!(all_boundaries(k, t, if t { 60 } else { 4 }): Half);
    for_fmts!(all_boundaries(k, t, if t { 60 } else { 2 }): BFloat);
    let lens = |n: usize, x: &[usize]| -> Vec<usize> { (1..=n).chain(x.iter().cloned()).collect() };
    let xs: &[usize] = if t { &[300, 500, 800, 1100, 2000, 5000] } else { &[300, 800] };
    for_fmts!(long(k, lens(if t { 250 } else { 90 }, xs)): E5M2, E4M3FN, Half, BFloat, Single, Double);
    for_fmts!(long(k, lens(if t { 250 } else { 140 }, xs)): X87, Quad);
    for_fmts!(lat_boundaries(k, if t { 200 } else { 30 }, None, if t { 60 } else { 24 }): Single);
    for_fmts!(lat_boundaries(k, if t { 60 } else { 8 }, None, if t { 60 } else { 40 }): Double);
    for_fmts!(lat_boundaries(k, if t { 17 } else { 4 }, Some(1), if t { 60 } else { 20 }): Single);
    for_fmts!(lat_boundaries(k, if t { 17 } else { 3 }, Some(if t { 1 } else { 7 }), if t { 60 } else { 30 }): Double);
    for_fmts!(lat_boundaries(k, if t { 17 } else { 1 }, Some(if t { 41 } else { 2803 }), if t { 60 } else { 16 }): X87);
    for_fmts!(lat_boundaries(k, if t { 17 } else { 1 }, Some(if t { 41 } else { 2803 }), if t { 60 } else { 16 }): Quad);
    k.run()
}
