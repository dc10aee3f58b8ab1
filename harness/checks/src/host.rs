//! Cross-validation of the reference model against independent implementations: the host FPU
//! (round to nearest even) and the standard library. A disagreement is an error of the model
//! (exit 2), never a verdict.

use model::{Fmt, Rm, DOUBLE, SINGLE};

fn die(msg: String) -> ! {
    eprintln!("model disagrees with the host: {msg}");
    std::process::exit(2)
}

fn eq(m: &Fmt, want: model::V, host: u128) -> bool {
    if want.is_nan() {
        m.decode(host).is_nan()
    } else {
        m.encode(want) == host
    }
}

pub fn check_pairs(ops: &[&str]) -> u64 {
    let mut n = 0;
    let v32 = crate::values(&SINGLE, 8, true);
    for &a in &v32 {
        for &b in &v32 {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            let (va, vb) = (SINGLE.decode(a), SINGLE.decode(b));
            for op in ops {
                let (h, w) = match *op {
                    "add" => (x + y, SINGLE.add(va, vb, Rm::Ne).0),
                    "sub" => (x - y, SINGLE.sub(va, vb, Rm::Ne).0),
                    "mul" => (x * y, SINGLE.mul(va, vb, Rm::Ne).0),
                    "div" => (x / y, SINGLE.div(va, vb, Rm::Ne).0),
                    "rem" => (x % y, SINGLE.rem(va, vb, false).0),
                    _ => unreachable!(),
                };
                n += 1;
                if !eq(&SINGLE, w, h.to_bits() as u128) {
                    die(format!("f32 {x:e} {op} {y:e}"));
                }
            }
        }
    }
    let v64 = crate::values(&DOUBLE, 6, true);
    for &a in &v64 {
        for &b in &v64 {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            let (va, vb) = (DOUBLE.decode(a), DOUBLE.decode(b));
            for op in ops {
                let (h, w) = match *op {
                    "add" => (x + y, DOUBLE.add(va, vb, Rm::Ne).0),
                    "sub" => (x - y, DOUBLE.sub(va, vb, Rm::Ne).0),
                    "mul" => (x * y, DOUBLE.mul(va, vb, Rm::Ne).0),
                    "div" => (x / y, DOUBLE.div(va, vb, Rm::Ne).0),
                    "rem" => (x % y, DOUBLE.rem(va, vb, false).0),
                    _ => unreachable!(),
                };
                n += 1;
                if !eq(&DOUBLE, w, h.to_bits() as u128) {
                    die(format!("f64 {x:e} {op} {y:e}"));
                }
            }
        }
    }
    n
}

pub fn check_fma() -> u64 {
    let mut n = 0;
    let v: Vec<u128> = crate::values(&DOUBLE, 4, true).into_iter().step_by(7).collect();
    for &a in &v {
        for &b in &v {
            for &c in &v {
                let h = f64::from_bits(a as u64).mul_add(f64::from_bits(b as u64), f64::from_bits(c as u64));
                let w = DOUBLE.fma(DOUBLE.decode(a), DOUBLE.decode(b), DOUBLE.decode(c), Rm::Ne).0;
                n += 1;
                if !eq(&DOUBLE, w, h.to_bits() as u128) {
                    die(format!("f64 fma {a:#x} {b:#x} {c:#x}"));
                }
            }
        }
    }
    n
}

/// Decimal reading: the model against the standard library's parser (nearest-even).
pub fn check_decimals() -> u64 {
    let mut n = 0;
    let mut heads: Vec<String> = (1..200).map(|i| (i * i * 7 + 1).to_string()).collect();
    for i in 1..60usize {
        heads.push("123456789".repeat(7)[..i].to_string());
        heads.push("9".repeat(i));
    }
    for h in &heads {
        for e in (-345i64..312).step_by(9) {
            let s = format!("{h}e{e}");
            let Some(model::text::Lit::Dec(neg, d, k)) = model::text::parse(&s) else { die(format!("model rejects {s}")) };
            let x: f64 = s.parse().unwrap();
            let y: f32 = s.parse().unwrap();
            if !eq(&model::DOUBLE, model::DOUBLE.dec(neg, &d, k, model::Rm::Ne).0, x.to_bits() as u128)
                || !eq(&model::SINGLE, model::SINGLE.dec(neg, &d, k, model::Rm::Ne).0, y.to_bits() as u128)
            {
                die(format!("decimal model differs from std for {s}"));
            }
            n += 2;
        }
    }
    n
}
