//! C17: the accepted language.
use checks::*;
use model::text::{parse, tolerated, Lit};
use rustc_apfloat::Float;

fn one<T: Sub>(c: &mut Ctx, s: &str) {
    let m = &T::M;
    c.states += 1;
    let lit = parse(s);
    for rm in RMS {
        c.at_text(&"from_str_r", s, rm as u64);
        let r = T::F::from_str_r(s, rnd(rm));
        c.transitions += 1;
        match (&lit, r) {
            (None, Err(_)) => {}
            (Some(l), Ok(r)) => {
                let (got, gs) = (r.value.to_bits(), st(r.status));
                let (want, ws) = m.lit(l, rm);
                let ok = if matches!(l, Lit::Nan(..)) {
                    got == m.encode(want)
                } else if want.is_nan() {
                    // overflow without infinity: the sign of the NaN is not specified
                    m.decode(got).is_nan()
                } else {
                    got == m.encode(want)
                };
                if !ok || gs != ws {
                    return c.fail(format!(
                        "{} from_str_r({}) {:?} = {} {}, expected {:?} {}",
                        m.name, clip(s), rm, showv(m, got), show_st(gs), want, show_st(ws)
                    ));
                }
                c.outcome(got ^ (m.bits as u128) << 100);
            }
            (None, Ok(r)) => {
                if tolerated(s) {
                    return;
                }
                return c.fail(format!("{} from_str_r({}) {:?} accepted as {}", m.name, clip(s), rm, showv(m, r.value.to_bits())));
            }
            (Some(l), Err(e)) => {
                return c.fail(format!("{} from_str_r({}) {:?} rejected ({}), denotes {:?}", m.name, clip(s), rm, e.0, l));
            }
        }
    }
    c.traces += 1;
    c.sample(|| format!("{} {} = {:?}", m.name, clip(s), lit));
}

/// All sequences of up to `len` tokens.
fn language<T: Sub>(k: &mut Check, what: &str, toks: &'static [&'static str], len: usize) {
    let n = toks.len() as u64;
    let m = T::M;
    k.job(
        format!("{what} up to {len} {}", m.name),
        true,
        format!("every sequence of at most {len} of the {n} tokens {:?}", toks),
        n * n + 1,
        move |i, c| {
            if i == 0 {
                one::<T>(c, "");
                for t in toks {
                    one::<T>(c, t);
                }
                return;
            }
            let i = i - 1;
            let mut s = format!("{}{}", toks[(i / n) as usize], toks[(i % n) as usize]);
            rec::<T>(c, &mut s, toks, len as isize - 2);
        },
    );
}
fn rec<T: Sub>(c: &mut Ctx, s: &mut String, toks: &[&str], left: isize) {
    one::<T>(c, s);
    if left <= 0 || c.failed() {
        return;
    }
    let l = s.len();
    for t in toks {
        s.push_str(t);
        rec::<T>(c, s, toks, left - 1);
        s.truncate(l);
        if c.failed() {
            return;
        }
    }
}

static CHARS: &[&str] = &["0", "1", "7", "8", "9", ".", "e", "E", "p", "P", "x", "X", "a", "F", "g", "+", "-", "n", "i", "s", "(", ")", " ", "_", "\0", "é", "٣"];
static NUM: &[&str] = &["0", "1", "8", ".", "e", "E", "p", "x", "X", "a", "+", "-", " "];
static DEC: &[&str] = &["0", "5", ".", "e", "+", "-", "E"];
static HEX: &[&str] = &["0x", "0", "8", "c", ".", "p", "+", "-", "P"];
static WORDS: &[&str] = &[
    "nan", "NaN", "inf", "Inf", "INFINITY", "INF", "NAN", "Nan", "Infinity", "infinity", "s", "S", "-", "+", "(", ")", "0", "0x", "0X", "1", "7", "8", "9", "f", "F", ".", "e1", " ", "\0", "é",
];
static NANS: &[&str] = &["-", "+", "s", "S", "nan", "NaN", "(", ")", "0", "0x", "0X", "7", "8", "f"];

/// Payload values around every width, in every radix and bracket style, and around 2^128.
fn payloads<T: Sub>(k: &mut Check) {
    let m = T::M;
    k.job(format!("payloads {}", m.name), true, "payloads 2^w-1, 2^w, 2^w+1 for every w up to 128 and beyond, 4 radices, brackets, leading zeros, signs, s/S, nan/NaN", 131, move |i, c| {
        let mut pays: Vec<(String, String, String)> = vec![]; // dec, oct, hex
        if i < 128 {
            for x in [mask(i as u32), 1u128 << i, (1u128 << i) + 1, patterns()[4] & mask(i as u32)] {
                pays.push((format!("{x}"), format!("{x:o}"), format!("{x:x}")));
            }
        } else {
            // 2^128 - 1, 2^128, 2^128 + 1, and much longer
            match i {
                128 => pays.push((u128::MAX.to_string(), format!("{:o}", u128::MAX), format!("{:x}", u128::MAX))),
                129 => {
                    pays.push(("340282366920938463463374607431768211456".into(), format!("4{}", "0".repeat(42)), format!("1{}", "0".repeat(32))));
                    pays.push(("340282366920938463463374607431768211457".into(), format!("4{}1", "0".repeat(41)), format!("1{}1", "0".repeat(31))));
                    pays.push(("340282366920938463463374607431768211465".into(), format!("37{}7", "7".repeat(41)), format!("f{}f", "f".repeat(31))));
                }
                _ => pays.push(("9".repeat(80), "7".repeat(80), "f".repeat(80))),
            }
        }
        for (d, o, h) in &pays {
            for (a, b) in [("", ""), ("(", ")"), ("(", ""), ("", ")"), ("((", "))")] {
                for sg in ["", "-", "+"] {
                    for s in ["", "s", "S"] {
                        for w in ["nan", "NaN"] {
                            for p in [d.clone(), format!("0{o}"), format!("000{o}"), format!("0x{h}"), format!("0X{}", h.to_uppercase()), format!("0x000{h}"), format!("0{d}"), h.clone(), format!("0x{h}g"), format!("{d} "), format!("-{d}")] {
                                one::<T>(c, &format!("{sg}{s}{w}{a}{p}{b}"));
                                if c.failed() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Every single-character deletion, insertion and replacement of valid strings.
fn mutations<T: Sub>(k: &mut Check) {
    let bases = [
        "0", "-0.0", "+1.5e-3", "123.456E+78", "1e", "1e+", ".5", "5.", "-.5e1", "0x1p0", "-0X1.8P-3", "0x.fp+10", "0xAbC.dEfp5", "inf", "-inf", "INFINITY", "-INFINITY", "+Inf", "-Inf", "nan", "-NaN", "snan", "-SNaN(0x123)", "nan(123)", "NaN0777", "nan0xfF", "1e400", "1e-400", "99999999999999999999999999999999999999999999", "0x1.23456789abcdef0123456789abcdef01234p+3",
    ];
    k.job(
        format!("mutations {}", T::M.name),
        true,
        format!("every deletion, replacement, insertion, duplication and swap of one or (replacement after deletion) two characters in {} valid strings", bases.len()),
        bases.len() as u64,
        move |i, c| {
            let b: Vec<char> = bases[i as usize].chars().collect();
            let al: Vec<char> = (32u8..127).map(|x| x as char).chain(['\0', '\t', '\n', 'é', '٣', '\u{ff11}', '\u{1f600}']).collect();
            let st = |v: &[char]| -> String { v.iter().collect() };
            one::<T>(c, &st(&b));
            for p in 0..=b.len() {
                for &x in &al {
                    let mut v = b.clone();
                    v.insert(p, x);
                    one::<T>(c, &st(&v));
                    // a second insertion of the structural characters
                    for q in 0..=v.len() {
                        for y in ['.', 'e', 'p', '-', '+', '0', 'x'] {
                            let mut w = v.clone();
                            w.insert(q, y);
                            one::<T>(c, &st(&w));
                        }
                    }
                    if p < b.len() {
                        let mut v = b.clone();
                        v[p] = x;
                        one::<T>(c, &st(&v));
                        for q in 0..v.len() {
                            let mut w = v.clone();
                            w.remove(q);
                            one::<T>(c, &st(&w));
                        }
                    }
                    if c.failed() {
                        return;
                    }
                }
                if p < b.len() {
                    let mut v = b.clone();
                    v.remove(p);
                    one::<T>(c, &st(&v));
                    for q in 0..b.len() {
                        let mut v = b.clone();
                        v.swap(p, q);
                        one::<T>(c, &st(&v));
                    }
                }
            }
        },
    );
}

/// Literals with one or two parts of any length, intact and with one foreign character.
fn long_parts<T: Sub>(k: &mut Check, lens: Vec<usize>) {
    // `~` and `^` stand for runs of the given characters
    static SHAPES: &[(&str, char, char)] = &[
        ("~1e^5", '0', '0'),
        ("~e-^3", '9', '0'),
        ("-1~.^", '0', '0'),
        (".~5^e1", '0', '0'),
        (".~^", '0', '3'),
        ("~^", '7', '0'),
        ("-~5^.", '0', '8'),
        ("+~.^E+2", '6', '4'),
        ("0.~1e^", '0', '1'),
        ("2e~^", '0', '4'),
        ("7e-~^", '0', '2'),
        ("1~e-^", '0', '1'),
        ("0~e^", '0', '9'),
        ("~.^", '0', '0'),
        ("0x~1p^5", '0', '0'),
        ("0X~p-^3", 'f', '0'),
        ("-0x1~.^p0", '0', '0'),
        ("0x.~d^p+1", '0', '0'),
        ("0x~.^P2", '6', '9'),
        ("0x3p~^", '0', '4'),
        ("0xep-~^", '0', '2'),
        ("0x0~p^", '0', '9'),
        ("nan~^", '0', '7'),
        ("-sNaN(~^)", '0', '5'),
        ("nan0x~^", '0', 'e'),
        ("NaN(0X~^)", '0', '2'),
        ("nan(1~^)", '0', '6'),
    ];
    let n = lens.len();
    let m = T::M;
    k.job(
        format!("long parts {}", m.name),
        true,
        format!("{} literal shapes x every pair of run lengths from {lens:?} for two of their parts (leading and trailing zeros, digits, exponent digits, payload digits); one foreign character at every place of those with one long part", SHAPES.len()),
        (SHAPES.len() * n) as u64,
        move |i, c| {
            let (shape, x, y) = SHAPES[i as usize / n];
            let a = lens[i as usize % n];
            for &b in &lens {
                let mut s = String::new();
                for ch in shape.chars() {
                    match ch {
                        '~' => s.extend(std::iter::repeat(x).take(a)),
                        '^' => s.extend(std::iter::repeat(y).take(b)),
                        ch => s.push(ch),
                    }
                }
                one::<T>(c, &s);
                if a.min(b) <= 1 && s.len() < 100 {
                    for p in 0..=s.len() {
                        for f in ["-", ".", "e", "p", "8", "g", " ", "_", "é"] {
                            one::<T>(c, &format!("{}{f}{}", &s[..p], &s[p..]));
                        }
                        if c.failed() {
                            return;
                        }
                    }
                }
                if c.failed() {
                    return;
                }
            }
        },
    );
}

/// Every exponent value, plainly written, in both radices.
fn every_exponent_text<T: Sub>(k: &mut Check, top: u64) {
    let m = T::M;
    k.job(
        format!("exponents {}", m.name),
        true,
        format!("every decimal and every hexadecimal exponent -{top}..={top}, after 1, 2.5, .75, 400 and 0x1, 0xa.8, 0x.3, with and without sign, leading zero and upper case"),
        top + 1,
        move |i, c| {
            for t in ["1e", "2.5E", ".75e", "400e"] {
                for e in ["+", "-", "", "-0"] {
                    one::<T>(c, &format!("{t}{e}{i}"));
                }
            }
            for t in ["0x1p", "0xa.8P", "0X.3p"] {
                for e in ["+", "-", "", "-0"] {
                    one::<T>(c, &format!("{t}{e}{i}"));
                }
            }
        },
    );
}

fn main() {
    let k = &mut Check::new("C17");
    let t = k.thorough();
    k.assumptions.push("A '+' in front of NaN payload digits is neither required nor forbidden; the sign of the NaN that replaces an overflow in formats without infinity is not specified.".into());
    for_fmts!(language(k, "characters", CHARS, 3): E4M3FN, Half, BFloat, Single, X87, Quad, E5M2, N6E3);
    for_fmts!(language(k, "characters", CHARS, if t { 6 } else { 5 }): Double);
    for_fmts!(language(k, "numbers", NUM, if t { 8 } else { 7 }): Double);
    for_fmts!(language(k, "numbers", NUM, if t { 6 } else { 5 }): E4M3FN, X87);
    for_fmts!(language(k, "decimals", DEC, if t { 11 } else { 9 }): Half);
    for_fmts!(language(k, "hexadecimals", HEX, if t { 9 } else { 8 }): Half);
    for_fmts!(language(k, "words", WORDS, if t { 6 } else { 5 }): Double);
    for_fmts!(language(k, "words", WORDS, 3): E4M3FN, X87, Quad, E5M2);
    for_fmts!(language(k, "nans", NANS, if t { 8 } else { 7 }): Single);
    for_fmts!(payloads(k): E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad);
    for_fmts!(mutations(k): E4M3FN, Double);
    let mut lens: Vec<usize> = (0..=if t { 200 } else { 80 }).collect();
    lens.extend([63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 1000]);
    lens.sort();
    lens.dedup();
    for_fmts!(long_parts(k, lens.clone()): E4M3FN, Half, Single, Double, X87, Quad);
    for_fmts!(every_exponent_text(k, if t { 20000 } else { 6000 }): Half, Single, Double);
    for_fmts!(every_exponent_text(k, if t { 20000 } else { 5200 }): X87, Quad);
    k.run()
}
