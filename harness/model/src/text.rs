//! Reading and printing numbers: the accepted grammar, exact values of literals, exact decimal
//! expansions and the documented print layout.

use crate::big::Big;
use crate::{mask, Fmt, Rm, INEXACT, OVERFLOW, RMS, UNDERFLOW, V};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub fn pow5(n: usize) -> std::sync::Arc<Big> {
    static T: OnceLock<Mutex<HashMap<usize, std::sync::Arc<Big>>>> = OnceLock::new();
    let t = T.get_or_init(Default::default);
    if let Some(x) = t.lock().unwrap().get(&n) {
        return x.clone();
    }
    let v = std::sync::Arc::new(Big::pow5(n));
    t.lock().unwrap().insert(n, v.clone());
    v
}

/// What a string denotes.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Lit {
    Inf(bool),
    /// sign, signaling, payload
    Nan(bool, bool, Option<u128>),
    /// sign, digits (significant ones, no leading/trailing zeros), exponent of the last digit
    Dec(bool, Vec<u8>, i64),
    /// sign, hex digit values (no leading/trailing zeros), binary exponent of the last digit's unit
    Hex(bool, Vec<u8>, i64),
}

fn exponent(s: &[u8], need_digits: bool) -> Option<i64> {
    let (neg, d) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() && need_digits {
        return None;
    }
    let mut x = 0i64;
    for &c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        x = (x * 10 + (c - b'0') as i64).min(1 << 40);
    }
    Some(if neg { -x } else { x })
}

/// The documented grammar:
///   [+-] decimal: digits with at most one '.', at least one digit, optional [eE] exponent whose
///                 digits may be missing (binutils compatibility)
///   [+-] 0[xX] hex digits with at most one '.', at least one digit, [pP] exponent with digits
///   inf, INFINITY, -inf, -INFINITY, +Inf, -Inf
///   [-] [sS] (nan|NaN) [payload | (payload)]  with payload decimal, 0octal or 0xhex, fitting 128 bits
pub fn parse(s: &str) -> Option<Lit> {
    let b = s.as_bytes();
    let (minus, plus, r) = match b.first() {
        None => return None,
        Some(b'-') => (true, false, &b[1..]),
        Some(b'+') => (false, true, &b[1..]),
        _ => (false, false, b),
    };
    match r {
        b"Inf" if minus || plus => return Some(Lit::Inf(minus)),
        b"inf" | b"INFINITY" if !plus => return Some(Lit::Inf(minus)),
        _ => {}
    }
    if !plus {
        let (snan, t) = match r.first() {
            Some(b's') | Some(b'S') => (true, &r[1..]),
            _ => (false, r),
        };
        if t.starts_with(b"nan") || t.starts_with(b"NaN") {
            let mut t = &t[3..];
            if t.len() >= 3 && t[0] == b'(' && t[t.len() - 1] == b')' {
                t = &t[1..t.len() - 1];
            }
            if t.is_empty() {
                return Some(Lit::Nan(minus, snan, None));
            }
            let (radix, d) = if t.len() > 2 && t[0] == b'0' && (t[1] == b'x' || t[1] == b'X') {
                (16, &t[2..])
            } else if t.len() > 1 && t[0] == b'0' {
                (8, &t[1..])
            } else {
                (10, t)
            };
            // A '+' before the payload digits is neither required nor forbidden; see `tolerated`.
            let mut v = 0u128;
            for &c in d {
                let x = (c as char).to_digit(radix)? as u128;
                v = v.checked_mul(radix as u128)?.checked_add(x)?;
            }
            return Some(Lit::Nan(minus, snan, Some(v)));
        }
    }
    let hex = r.len() >= 2 && r[0] == b'0' && (r[1] == b'x' || r[1] == b'X');
    let r = if hex { &r[2..] } else { r };
    let mut digits: Vec<u8> = vec![];
    let mut point: Option<usize> = None;
    let mut exp = None;
    for (i, &c) in r.iter().enumerate() {
        match c {
            b'.' => {
                if point.is_some() {
                    return None;
                }
                point = Some(digits.len());
            }
            b'e' | b'E' if !hex => {
                exp = Some(exponent(&r[i + 1..], false)?);
                break;
            }
            b'p' | b'P' if hex => {
                exp = Some(exponent(&r[i + 1..], true)?);
                break;
            }
            _ => digits.push((c as char).to_digit(if hex { 16 } else { 10 })? as u8),
        }
    }
    if digits.is_empty() || hex && exp.is_none() {
        return None;
    }
    let frac = (digits.len() - point.unwrap_or(digits.len())) as i64;
    let mut e = exp.unwrap_or(0) - frac * if hex { 4 } else { 1 };
    while digits.last() == Some(&0) {
        digits.pop();
        e += if hex { 4 } else { 1 };
    }
    let lead = digits.iter().take_while(|&&d| d == 0).count();
    digits.drain(..lead);
    Some(if hex { Lit::Hex(minus, digits, e) } else { Lit::Dec(minus, digits, e) })
}

/// Strings whose acceptance the documentation leaves open (a '+' before NaN payload digits).
pub fn tolerated(s: &str) -> bool {
    s.to_ascii_lowercase().contains("nan") && s[1..].contains('+')
}

impl Fmt {
    pub fn vqnan(&self, neg: bool, payload: Option<u128>) -> V {
        let V::Nan { sig, .. } = self.qnan() else { unreachable!() };
        let pay = if self.nanonly { 0 } else { payload.unwrap_or(0) & mask(self.p - 1) };
        V::Nan { neg, sig: sig | pay }
    }
    pub fn vsnan(&self, neg: bool, payload: Option<u128>) -> V {
        if self.nanonly {
            return self.qnan().with_neg(neg);
        }
        let mut pay = payload.unwrap_or(0) & mask(self.p - 1) & !self.quiet_bit();
        if pay == 0 {
            pay = self.quiet_bit() >> 1;
        }
        V::Nan { neg, sig: pay | if self.x87 { 1 << 63 } else { 0 } }
    }

    /// A decimal D * 10^k as (m, e, sticky) with enough bits to be rounded to this format.
    /// `digits` without leading or trailing zeros (digit values), not empty.
    fn dec_bits(&self, digits: &[u8], k: i64) -> (u128, i32, bool) {
        // 10^(n-1+k) <= value < 10^(n+k)
        let n = digits.len() as i64;
        if (n - 1 + k) * 3 > self.emax as i64 + 1 {
            // value >= 10^a >= 2^(3a) > anything
            return (1, self.emax + 10, false);
        }
        if (n + k) < 0 && (n + k) * 3 < self.elsb() as i64 - 3 {
            // value < 10^a <= 2^(3a) for a <= 0, well below half the smallest subnormal
            return (0, self.elsb() - 3, true);
        }
        let asc: Vec<u8> = digits.iter().map(|d| d + b'0').collect();
        let d = Big::from_dec(&asc);
        if k >= 0 {
            let (m, e, st) = d.mul(&pow5(k as usize)).top();
            (m, e + k as i32, st)
        } else {
            let (m, e, st) = d.div_top(&pow5((-k) as usize));
            (m, e + k as i32, st)
        }
    }
    /// Correctly rounded value of a decimal D * 10^k.
    pub fn dec(&self, neg: bool, digits: &[u8], k: i64, rm: Rm) -> (V, u8) {
        if digits.is_empty() {
            return (V::Zero(neg), 0);
        }
        let (m, e, st) = self.dec_bits(digits, k);
        self.round(neg, m, e, st, rm)
    }
    /// The same in every rounding mode.
    pub fn dec5(&self, neg: bool, digits: &[u8], k: i64) -> [(V, u8); 5] {
        if digits.is_empty() {
            return [(V::Zero(neg), 0); 5];
        }
        let (m, e, st) = self.dec_bits(digits, k);
        RMS.map(|rm| self.round(neg, m, e, st, rm))
    }

    pub fn hex(&self, neg: bool, digits: &[u8], e: i64, rm: Rm) -> (V, u8) {
        let mut m = 0u128;
        let mut used = 0usize;
        let mut st = false;
        for &d in digits {
            if m >> 124 == 0 {
                m = m << 4 | d as u128;
                used += 1;
            } else {
                st |= d != 0;
            }
        }
        if m == 0 {
            return (V::Zero(neg), 0);
        }
        let e = e + 4 * (digits.len() - used) as i64;
        let e = e.clamp(-1 << 28, 1 << 28) as i32;
        self.round(neg, m, e, st, rm)
    }

    /// Value and status of a literal.
    pub fn lit(&self, l: &Lit, rm: Rm) -> (V, u8) {
        match l {
            Lit::Inf(n) => (self.inf(*n), 0),
            Lit::Nan(n, false, p) => (self.vqnan(*n, *p), 0),
            Lit::Nan(n, true, p) => (self.vsnan(*n, *p), 0),
            Lit::Dec(n, d, k) => self.dec(*n, d, *k, rm),
            Lit::Hex(n, d, e) => self.hex(*n, d, *e, rm),
        }
    }
}
pub const FLAGS: [u8; 3] = [INEXACT, OVERFLOW, UNDERFLOW];

/// Exact decimal expansion of m * 2^e: (ASCII digits without leading or trailing zeros, exponent of the last digit).
pub fn expand(m: u128, e: i32) -> (Vec<u8>, i32) {
    let (m, e) = (m >> m.trailing_zeros(), e + m.trailing_zeros() as i32);
    let (b, mut k) = if e >= 0 {
        (Big::from(m).shl(e as usize), 0)
    } else {
        (Big::from(m).mul(&pow5((-e) as usize)), e)
    };
    let mut d = b.to_dec();
    while d.last() == Some(&b'0') {
        d.pop();
        k += 1;
    }
    (d, k)
}

/// A printed number taken apart: significant digits (leading zeros stripped; trailing zeros kept
/// in `digits`), exponent of the last digit.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Printed {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i64,
}

/// Parse a plain decimal print (no specials).
pub fn unprint(s: &str) -> Option<Printed> {
    match parse(s)? {
        Lit::Dec(neg, d, k) => Some(Printed { neg, digits: d.iter().map(|x| x + b'0').collect(), exp: k }),
        _ => None,
    }
}

/// The documented layout for significant digits `d` (ASCII, no leading or trailing zeros) with
/// the last digit at 10^k.
pub fn layout(neg: bool, d: &[u8], k: i64, precision: usize, width: usize, alternate: bool) -> String {
    let s = core::str::from_utf8(d).unwrap();
    let n = d.len() as i64;
    let msd = k + n - 1; // exponent of the leading digit
    let scientific = if width == 0 {
        true
    } else if k >= 0 {
        // integral: zeros may be appended, at most `width` of them and never beyond the precision
        k > width as i64 || n + k > precision as i64
    } else {
        // zeros after the point before the first digit (counting the one before the point)
        msd < 0 && -msd > width as i64
    };
    let sign = if neg { "-" } else { "" };
    if scientific {
        let (head, tail) = s.split_at(1);
        let mut t = tail.to_string();
        if !alternate {
            if t.is_empty() {
                t.push('0');
            }
            return format!("{sign}{head}.{t}E{msd:+}");
        }
        // printf-like: the digits after the leading one are padded to the precision
        while t.len() < precision {
            t.push('0');
        }
        let es = if msd < 0 { '-' } else { '+' };
        return format!("{sign}{head}.{t}e{es}{:02}", msd.abs());
    }
    if k >= 0 {
        return format!("{sign}{s}{}", "0".repeat(k as usize));
    }
    if msd >= 0 {
        let (a, b) = s.split_at((msd + 1) as usize);
        format!("{sign}{a}.{b}")
    } else {
        format!("{sign}0.{}{s}", "0".repeat((-msd - 1) as usize))
    }
}

/// D * 10^k for digit values `d`, plus or minus one unit of the last digit (digit string, may gain
/// or lose a leading digit).
pub fn pred_digits(d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    for x in v.iter_mut().rev() {
        if *x > 0 {
            *x -= 1;
            break;
        }
        *x = 9;
    }
    v
}
pub fn succ_digits(d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    for x in v.iter_mut().rev() {
        if *x < 9 {
            *x += 1;
            return v;
        }
        *x = 0;
    }
    v.insert(0, 1);
    v
}
