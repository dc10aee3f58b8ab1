//! C11: comparison and min/max agree with the order of the represented values.
use checks::*;
use rustc_apfloat::Float;
use std::cmp::Ordering;

fn pair<T: Sub>(c: &mut Ctx, a: u128, b: u128) {
    let m = &T::M;
    let (va, vb) = (m.decode(a), m.decode(b));
    let (x, y) = (T::F::from_bits(a), T::F::from_bits(b));
    c.states += 1;
    let want = m.cmp(va, vb);
    macro_rules! eq {
        ($op:literal, $got:expr, $want:expr) => {{
            c.at(&$op, a, b, 0, 0);
            let (g, w) = ($got, $want);
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {}({}, {}) = {:?}, expected {:?}", m.name, $op, showv(m, a), showv(m, b), g, w));
            }
        }};
    }
    eq!("partial_cmp", x.partial_cmp(&y), want);
    eq!("eq", x == y, want == Some(Ordering::Equal));
    eq!("ne", x != y, want != Some(Ordering::Equal));
    eq!("lt", x < y, want == Some(Ordering::Less));
    eq!("le", x <= y, matches!(want, Some(Ordering::Less | Ordering::Equal)));
    eq!("gt", x > y, want == Some(Ordering::Greater));
    eq!("ge", x >= y, matches!(want, Some(Ordering::Greater | Ordering::Equal)));
    if va.is_fin_nz() && vb.is_fin_nz() {
        eq!("cmp_abs_normal", x.cmp_abs_normal(y), m.cmp_abs(va, vb));
    }
    eq!("bitwise_eq", x.bitwise_eq(y), m.encode(va) == m.encode(vb));
    // Accepted encodings of the selected operand.
    let (ca, cb) = (m.encode(va), m.encode(vb));
    let zeros = va.is_zero() && vb.is_zero();
    let sel = |less: bool| -> Vec<u128> {
        match want {
            None => unreachable!(),
            Some(Ordering::Equal) => vec![ca, cb],
            Some(o) => vec![if (o == Ordering::Less) == less { ca } else { cb }],
        }
    };
    for (k, op) in [(0, "min"), (1, "max"), (2, "minimum"), (3, "maximum")] {
        let less = k % 2 == 0;
        let ok: Vec<u128> = if want.is_none() {
            match (va.is_nan(), vb.is_nan()) {
                (true, true) => vec![ca, cb],
                (true, false) => vec![if k < 2 { cb } else { ca }],
                _ => vec![if k < 2 { ca } else { cb }],
            }
        } else if zeros && k >= 2 {
            let n = if less { va.neg() || vb.neg() } else { va.neg() && vb.neg() };
            vec![if n { m.sign_bit() } else { 0 }]
        } else {
            sel(less)
        };
        let got = match k {
            0 => x.min(y),
            1 => x.max(y),
            2 => x.minimum(y),
            _ => x.maximum(y),
        }
        .to_bits();
        c.transitions += 1;
        if !ok.contains(&got) {
            return c.fail(format!("{} {}({}, {}) = {}, expected {:x?}", m.name, op, showv(m, a), showv(m, b), showv(m, got), ok));
        }
    }
    c.outcome(want.map_or(9, |o| o as i8 as u128) & 15 | (ca & 0xffff) << 8);
    c.traces += 1;
    c.sample(|| format!("{} order of {} and {} is {:?}", m.name, showv(m, a), showv(m, b), want));
}

/// Neighbours: every value against the values near it in encoding order, and their negatives.
fn neighbours<T: Sub>(k: &mut Check, tag: &str, sg: Vec<u128>) {
    let m = T::M;
    let top = m.exp_mask() as u64;
    let chunk = (top / 512).max(1);
    k.job(format!("{tag} {}", m.name), true, format!("{} significands at every exponent against their neighbours at encoding distance 0, 1, 2 and one binade, all signs", sg.len()), top / chunk + 1, move |i, c| {
        for be in i * chunk..(i + 1) * chunk {
            if be >= top {
                return;
            }
            for &s in &sg {
                let a = if be == 0 { enc_sub(&m, false, s) } else { enc(&m, false, be as u128, s) };
                for d in [0i128, 1, -1, 2, -2, 1 << m.sig_bits(), -(1 << m.sig_bits())] {
                    let b = (a as i128).wrapping_add(d) as u128;
                    if b >> (m.bits - 1) != 0 || m.encode(m.decode(b)) != b || m.encode(m.decode(a)) != a {
                        continue;
                    }
                    for sa in [0, m.sign_bit()] {
                        for sb in [0, m.sign_bit()] {
                            pair::<T>(c, a | sa, b | sb);
                        }
                    }
                    if c.failed() {
                        return;
                    }
                }
            }
        }
    });
}

fn main() {
    let k = &mut Check::new("C11");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    spaces!(all_pairs(k, "order"; pair): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5, T12E5, T12E6);
    if t {
        spaces!(all_pairs(k, "order"; pair): Half, BFloat);
    }
    spaces!(lat_pairs(k, "order", q(20, 80); pair): Half, BFloat, Single, Double, X87, Quad);
    neighbours::<Half>(k, "neighbours", (1024..2048).collect());
    neighbours::<BFloat>(k, "neighbours", (128..256).collect());
    neighbours::<Single>(k, "neighbours", sigs(24, 1));
    neighbours::<Double>(k, "neighbours", sigs(53, q(4, 1)));
    neighbours::<X87>(k, "neighbours", few_sigs(64));
    neighbours::<Quad>(k, "neighbours", few_sigs(113));
    // unsupported x87 encodings against everything
    let odd = x87_odd();
    let v = values(&model::X87, 8, true);
    k.job("order x87 unsupported", true, format!("{} unsupported encodings x {} values", odd.len(), v.len()), odd.len() as u64, move |i, c| {
        for &b in v.iter().chain(&odd) {
            pair::<checks::X87>(c, odd[i as usize], b);
            pair::<checks::X87>(c, b, odd[i as usize]);
            if c.failed() {
                return;
            }
        }
    });
    k.run()
}
