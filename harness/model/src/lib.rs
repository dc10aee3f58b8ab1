//! Reference model of binary floating-point arithmetic.
//!
//! This crate does not depend on the implementation under test. A number is decoded to an exact
//! dyadic `m * 2^e`; every operation computes the exact result (or a dyadic plus a "there is a
//! non-zero positive remainder below the last bit" flag) and rounds it once in `round`.

pub mod big;
pub mod text;
pub mod w256;
use w256::W;

/// Rounding modes of the model.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rm {
    Ne,
    Up,
    Down,
    Zero,
    Na,
}
pub const RMS: [Rm; 5] = [Rm::Ne, Rm::Up, Rm::Down, Rm::Zero, Rm::Na];
impl Rm {
    pub fn mirror(self) -> Rm {
        match self {
            Rm::Up => Rm::Down,
            Rm::Down => Rm::Up,
            r => r,
        }
    }
}

pub const INVALID: u8 = 1;
pub const DIVZERO: u8 = 2;
pub const OVERFLOW: u8 = 4;
pub const UNDERFLOW: u8 = 8;
pub const INEXACT: u8 = 16;

/// A binary format: the constants come from the format definitions (IEEE 754, bfloat16,
/// arXiv:2209.05433, x87), not from the implementation.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Fmt {
    pub name: &'static str,
    pub bits: u32,
    pub exp_bits: u32,
    pub p: u32,
    pub emin: i32,
    pub emax: i32,
    pub nanonly: bool,
    pub x87: bool,
}

pub const fn ieee(name: &'static str, bits: u32, exp_bits: u32) -> Fmt {
    Fmt {
        name,
        bits,
        exp_bits,
        p: bits - exp_bits,
        emin: 2 - (1 << (exp_bits - 1)),
        emax: (1 << (exp_bits - 1)) - 1,
        nanonly: false,
        x87: false,
    }
}
pub const fn nanonly(name: &'static str, bits: u32, exp_bits: u32) -> Fmt {
    let mut f = ieee(name, bits, exp_bits);
    f.nanonly = true;
    f.emax += 1;
    f
}
pub const HALF: Fmt = ieee("Half", 16, 5);
pub const BFLOAT: Fmt = ieee("BFloat", 16, 8);
pub const SINGLE: Fmt = ieee("Single", 32, 8);
pub const DOUBLE: Fmt = ieee("Double", 64, 11);
pub const QUAD: Fmt = ieee("Quad", 128, 15);
pub const E5M2: Fmt = ieee("Float8E5M2", 8, 5);
pub const E4M3FN: Fmt = nanonly("Float8E4M3FN", 8, 4);
pub const X87: Fmt = Fmt {
    name: "X87DoubleExtended",
    bits: 80,
    exp_bits: 15,
    p: 64,
    emin: -16382,
    emax: 16383,
    nanonly: false,
    x87: true,
};

/// A decoded value. Finite non-zero: `(-1)^neg * m * 2^e`, with `m < 2^p` and either `m >= 2^(p-1)`
/// or `e` the exponent of the least significant subnormal bit.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum V {
    /// `sig` holds the stored significand field (everything below the exponent field).
    Nan { neg: bool, sig: u128 },
    Inf(bool),
    Zero(bool),
    Fin { neg: bool, m: u128, e: i32 },
}

impl V {
    pub fn is_nan(self) -> bool {
        matches!(self, V::Nan { .. })
    }
    pub fn is_zero(self) -> bool {
        matches!(self, V::Zero(_))
    }
    pub fn is_inf(self) -> bool {
        matches!(self, V::Inf(_))
    }
    pub fn is_fin_nz(self) -> bool {
        matches!(self, V::Fin { .. })
    }
    pub fn is_finite(self) -> bool {
        self.is_zero() || self.is_fin_nz()
    }
    pub fn neg(self) -> bool {
        match self {
            V::Nan { neg, .. } | V::Inf(neg) | V::Zero(neg) | V::Fin { neg, .. } => neg,
        }
    }
    pub fn with_neg(self, n: bool) -> V {
        match self {
            V::Nan { sig, .. } => V::Nan { neg: n, sig },
            V::Inf(_) => V::Inf(n),
            V::Zero(_) => V::Zero(n),
            V::Fin { m, e, .. } => V::Fin { neg: n, m, e },
        }
    }
    pub fn negate(self) -> V {
        self.with_neg(!self.neg())
    }
}

pub const fn mask(n: u32) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}
pub fn blen(m: u128) -> i32 {
    128 - m.leading_zeros() as i32
}

impl Fmt {
    /// Width of the stored significand field.
    pub fn sig_bits(&self) -> u32 {
        if self.x87 {
            64
        } else {
            self.p - 1
        }
    }
    pub fn elsb(&self) -> i32 {
        self.emin - (self.p as i32 - 1)
    }
    pub fn exp_mask(&self) -> u128 {
        mask(self.exp_bits)
    }
    pub fn sign_bit(&self) -> u128 {
        1 << (self.bits - 1)
    }
    pub fn quiet_bit(&self) -> u128 {
        if self.nanonly {
            0
        } else {
            1 << (self.p - 2)
        }
    }
    pub fn largest(&self) -> (u128, i32) {
        let m = if self.nanonly { mask(self.p) - 1 } else { mask(self.p) };
        (m, self.emax - (self.p as i32 - 1))
    }
    pub fn vlargest(&self, neg: bool) -> V {
        let (m, e) = self.largest();
        V::Fin { neg, m, e }
    }
    pub fn vsmallest(&self, neg: bool) -> V {
        V::Fin { neg, m: 1, e: self.elsb() }
    }
    /// The default quiet NaN.
    pub fn qnan(&self) -> V {
        let sig = if self.nanonly {
            mask(self.p - 1)
        } else if self.x87 {
            0b11 << 62
        } else {
            self.quiet_bit()
        };
        V::Nan { neg: false, sig }
    }
    pub fn inf(&self, neg: bool) -> V {
        if self.nanonly {
            self.qnan().with_neg(neg)
        } else {
            V::Inf(neg)
        }
    }
    /// Whether a stored significand (of a NaN) denotes a signaling NaN. For x87 the pseudo-NaN and
    /// unnormal encodings have no integer bit; the implementation treats everything that does not
    /// have both top bits set as signaling, and so do we for proper NaNs.
    pub fn is_snan(&self, v: V) -> bool {
        match v {
            V::Nan { sig, .. } => !self.nanonly && sig & self.quiet_bit() == 0,
            _ => false,
        }
    }

    pub fn decode(&self, bits: u128) -> V {
        let neg = bits & self.sign_bit() != 0;
        let f = bits & mask(self.sig_bits());
        let be = ((bits >> self.sig_bits()) & self.exp_mask()) as i32;
        let top = self.exp_mask() as i32;
        if self.x87 {
            let int = f >> 63 != 0;
            if be == 0 {
                return if f == 0 {
                    V::Zero(neg)
                } else {
                    // pseudo-denormals (integer bit set) are the equal normal value
                    V::Fin { neg, m: f, e: self.elsb() }
                };
            }
            if be == top {
                return if f == 1 << 63 { V::Inf(neg) } else { V::Nan { neg, sig: f } };
            }
            if !int {
                return V::Nan { neg, sig: f };
            }
            return V::Fin { neg, m: f, e: be - 1 + self.elsb() };
        }
        if be == 0 {
            return if f == 0 {
                V::Zero(neg)
            } else {
                V::Fin { neg, m: f, e: self.elsb() }
            };
        }
        if be == top {
            if self.nanonly {
                if f == mask(self.p - 1) {
                    return V::Nan { neg, sig: f };
                }
            } else {
                return if f == 0 { V::Inf(neg) } else { V::Nan { neg, sig: f } };
            }
        }
        V::Fin { neg, m: f | 1 << (self.p - 1), e: be - 1 + self.elsb() }
    }

    pub fn encode(&self, v: V) -> u128 {
        let top = self.exp_mask();
        let (neg, be, f) = match v {
            V::Nan { neg, sig } => (neg, top, sig),
            V::Inf(neg) => {
                assert!(!self.nanonly);
                (neg, top, if self.x87 { 1 << 63 } else { 0 })
            }
            V::Zero(neg) => (neg, 0, 0),
            V::Fin { neg, m, e } => {
                assert!(m != 0 && m <= mask(self.p) && e >= self.elsb());
                if m >> (self.p - 1) == 0 {
                    assert!(e == self.elsb());
                    (neg, 0, m)
                } else {
                    let f = if self.x87 { m } else { m & mask(self.p - 1) };
                    (neg, (e - self.elsb() + 1) as u128, f)
                }
            }
        };
        assert!(be <= top && f <= mask(self.sig_bits()));
        (if neg { self.sign_bit() } else { 0 }) | be << self.sig_bits() | f
    }

    /// Whether an x87 bit pattern is one of the unsupported encodings.
    pub fn unsupported(&self, bits: u128) -> bool {
        self.x87 && {
            let f = bits & mask(64);
            let be = (bits >> 64) & mask(15);
            (be != 0) != (f >> 63 != 0) || be == 0 && f >> 63 != 0
        }
    }

    /// Is this canonical (what `encode` would give for the decoded value)?
    pub fn subnormal(&self, v: V) -> bool {
        matches!(v, V::Fin { m, .. } if m >> (self.p - 1) == 0)
    }

    /// Round `(-1)^neg * (m + s) * 2^e` once, where `s = 0` if `!sticky` and `0 < s < 1` otherwise.
    pub fn round(&self, neg: bool, m: u128, e: i32, sticky: bool, rm: Rm) -> (V, u8) {
        let p = self.p as i32;
        if m == 0 {
            if !sticky {
                return (V::Zero(neg), 0);
            }
            // Non-zero but below one unit of 2^e; the caller guarantees 2^e is below half the
            // smallest subnormal.
            assert!(e < self.elsb());
            let up = match rm {
                Rm::Up => !neg,
                Rm::Down => neg,
                _ => false,
            };
            let v = if up { self.vsmallest(neg) } else { V::Zero(neg) };
            return (v, UNDERFLOW | INEXACT);
        }
        let big_e = e as i64 + blen(m) as i64 - 1;
        // Far above or below: avoid i32 trouble.
        let q = (big_e - (p as i64 - 1)).max(self.elsb() as i64);
        let sh = q - e as i64;
        let (mut r, half, rest);
        if sh <= 0 {
            assert!(!sticky, "sticky without guard bit");
            r = m << (-sh) as u32;
            half = false;
            rest = false;
        } else if sh > 128 {
            r = 0;
            half = false;
            rest = true;
        } else {
            r = if sh == 128 { 0 } else { m >> sh };
            half = (m >> (sh - 1)) & 1 != 0;
            rest = m & mask(sh as u32 - 1) != 0 || sticky;
        }
        let inexact = half || rest;
        let up = inexact
            && match rm {
                Rm::Ne => half && (rest || r & 1 != 0),
                Rm::Na => half,
                Rm::Up => !neg,
                Rm::Down => neg,
                Rm::Zero => false,
            };
        let mut q = q;
        if up {
            r += 1;
            if r == 1 << p {
                r >>= 1;
                q += 1;
            }
        }
        // r < 2^p, value r * 2^q
        let (lm, le) = self.largest();
        if q > le as i64 || q == le as i64 && r > lm {
            let away = match rm {
                Rm::Ne | Rm::Na => true,
                Rm::Up => !neg,
                Rm::Down => neg,
                Rm::Zero => false,
            };
            return if away {
                (self.inf(neg), OVERFLOW | INEXACT)
            } else {
                (self.vlargest(neg), INEXACT)
            };
        }
        let v = if r == 0 { V::Zero(neg) } else { V::Fin { neg, m: r, e: q as i32 } };
        let st = if !inexact {
            0
        } else if r >> (p - 1) == 0 {
            UNDERFLOW | INEXACT
        } else {
            INEXACT
        };
        (v, st)
    }

    /// As `round`, for a 256-bit significand.
    pub fn round_w(&self, neg: bool, m: W, e: i32, sticky: bool, rm: Rm) -> (V, u8) {
        if m.hi == 0 {
            if !sticky || blen(m.lo) > self.p as i32 + 1 || m.lo == 0 {
                return self.round(neg, m.lo, e, sticky, rm);
            }
            panic!("sticky with too few bits");
        }
        let sh = 128 - m.hi.leading_zeros();
        let (r, st) = m.shr_sticky(sh);
        self.round(neg, r.lo, e + sh as i32, sticky || st, rm)
    }

    // ---- arithmetic -------------------------------------------------------------------------

    /// Exact sum of two non-zero dyadics with 226-bit significands: returns (neg, m, e, sticky), m = 0 for an exact zero.
    fn sum(a: (bool, W, i32), b: (bool, W, i32)) -> (bool, W, i32, bool) {
        const TOP: i32 = 250;
        let ea = a.2 as i64 + a.1.blen() as i64;
        let eb = b.2 as i64 + b.1.blen() as i64;
        let (x, y) = if ea >= eb { (a, b) } else { (b, a) };
        // Scale so that the larger-exponent operand has 250 bits; then align the other one to it.
        let up = (TOP - x.1.blen()) as u32;
        let xm = x.1.shl(up);
        let xe = x.2 - up as i32;
        let d = y.2 as i64 - xe as i64;
        let (ym, st) = if d >= 0 {
            (y.1.shl(d as u32), false)
        } else if d < -300 {
            (W::ZERO, true)
        } else {
            y.1.shr_sticky((-d) as u32)
        };
        if x.0 == y.0 {
            (x.0, xm.add(ym), xe, st)
        } else if st {
            // x - (ym + s) = (x - ym - 1) + (1 - s); x has an exponent at least 2 above y here
            // (y has at most 226 bits and some of them fell below bit 0), so x > ym + 1.
            (x.0, xm.sub(ym).sub(W::from(1)), xe, true)
        } else if ym.gt(xm) {
            (y.0, ym.sub(xm), xe, false)
        } else {
            (x.0, xm.sub(ym), xe, false)
        }
    }

    pub fn add(&self, a: V, b: V, rm: Rm) -> (V, u8) {
        match (a, b) {
            (V::Nan { .. }, _) | (_, V::Nan { .. }) => (self.qnan(), 0),
            (V::Inf(s), V::Inf(t)) => {
                if s == t {
                    (a, 0)
                } else {
                    (self.qnan(), INVALID)
                }
            }
            (V::Inf(_), _) => (a, 0),
            (_, V::Inf(_)) => (b, 0),
            (V::Zero(s), V::Zero(t)) => (V::Zero(if s == t { s } else { rm == Rm::Down }), 0),
            (_, V::Zero(_)) => (a, 0),
            (V::Zero(_), _) => (b, 0),
            (V::Fin { neg: s, m, e }, V::Fin { neg: t, m: n, e: f }) => {
                // small case: everything fits in an i128
                let lo = e.min(f);
                if (e - lo) as u32 + self.p <= 124 && (f - lo) as u32 + self.p <= 124 {
                    let x = (m << (e - lo)) as i128 * if s { -1 } else { 1 };
                    let y = (n << (f - lo)) as i128 * if t { -1 } else { 1 };
                    let z = x + y;
                    if z == 0 {
                        return (V::Zero(rm == Rm::Down), 0);
                    }
                    return self.round(z < 0, z.unsigned_abs(), lo, false, rm);
                }
                let (neg, z, ze, st) = Self::sum((s, W::from(m), e), (t, W::from(n), f));
                if z.is_zero() && !st {
                    return (V::Zero(rm == Rm::Down), 0);
                }
                self.round_w(neg, z, ze, st, rm)
            }
        }
    }
    pub fn sub(&self, a: V, b: V, rm: Rm) -> (V, u8) {
        self.add(a, b.negate(), rm)
    }
    pub fn mul(&self, a: V, b: V, rm: Rm) -> (V, u8) {
        let neg = a.neg() != b.neg();
        match (a, b) {
            (V::Nan { .. }, _) | (_, V::Nan { .. }) => (self.qnan(), 0),
            (V::Inf(_), V::Zero(_)) | (V::Zero(_), V::Inf(_)) => (self.qnan(), INVALID),
            (V::Inf(_), _) | (_, V::Inf(_)) => (V::Inf(neg), 0),
            (V::Zero(_), _) | (_, V::Zero(_)) => (V::Zero(neg), 0),
            (V::Fin { m, e, .. }, V::Fin { m: n, e: f, .. }) => {
                if self.p <= 63 {
                    self.round(neg, m * n, e + f, false, rm)
                } else {
                    self.round_w(neg, W::mul(m, n), e + f, false, rm)
                }
            }
        }
    }
    pub fn div(&self, a: V, b: V, rm: Rm) -> (V, u8) {
        let neg = a.neg() != b.neg();
        match (a, b) {
            (V::Nan { .. }, _) | (_, V::Nan { .. }) => (self.qnan(), 0),
            (V::Inf(_), V::Inf(_)) | (V::Zero(_), V::Zero(_)) => (self.qnan(), INVALID),
            (V::Inf(_), _) => (V::Inf(neg), 0),
            (_, V::Zero(_)) => (self.inf(neg), DIVZERO),
            (V::Zero(_), _) | (_, V::Inf(_)) => (V::Zero(neg), 0),
            (V::Fin { m, e, .. }, V::Fin { m: n, e: f, .. }) => {
                // quotient with at least p + 3 bits
                let want = blen(n) + self.p as i32 + 3;
                let k = (want - blen(m)).max(0) as u32;
                let (q, r) = if want <= 127 && blen(m) + k as i32 <= 127 {
                    let x = m << k;
                    (x / n, x % n != 0)
                } else {
                    let (q, r) = W::from(m).shl(k).divrem(n);
                    assert!(q.hi == 0);
                    (q.lo, r != 0)
                };
                self.round(neg, q, e - f - k as i32, r, rm)
            }
        }
    }
    pub fn fma(&self, a: V, b: V, c: V, rm: Rm) -> (V, u8) {
        let neg = a.neg() != b.neg();
        if a.is_nan() || b.is_nan() || c.is_nan() {
            return (self.qnan(), 0);
        }
        match (a, b) {
            (V::Inf(_), V::Zero(_)) | (V::Zero(_), V::Inf(_)) => (self.qnan(), INVALID),
            (V::Inf(_), _) | (_, V::Inf(_)) => self.add(V::Inf(neg), c, rm),
            (V::Zero(_), _) | (_, V::Zero(_)) => self.add(V::Zero(neg), c, rm),
            (V::Fin { m, e, .. }, V::Fin { m: n, e: f, .. }) => match c {
                V::Inf(_) => (c, 0),
                V::Zero(_) => self.mul(a, b, rm),
                V::Fin { neg: t, m: o, e: g } => {
                    let pe = e + f;
                    let lo = pe.min(g);
                    if 2 * self.p as i32 + (pe - lo) <= 124 && self.p as i32 + (g - lo) <= 124 {
                        let x = ((m * n) << (pe - lo)) as i128 * if neg { -1 } else { 1 };
                        let y = (o << (g - lo)) as i128 * if t { -1 } else { 1 };
                        let z = x + y;
                        if z == 0 {
                            return (V::Zero(rm == Rm::Down), 0);
                        }
                        return self.round(z < 0, z.unsigned_abs(), lo, false, rm);
                    }
                    let (neg, z, ze, st) = Self::sum((neg, W::mul(m, n), pe), (t, W::from(o), g));
                    if z.is_zero() && !st {
                        return (V::Zero(rm == Rm::Down), 0);
                    }
                    self.round_w(neg, z, ze, st, rm)
                }
                V::Nan { .. } => unreachable!(),
            },
            _ => unreachable!(),
        }
    }

    /// Remainder with truncated quotient (`ieee = false`) or quotient rounded to nearest even.
    pub fn rem(&self, a: V, b: V, ieee: bool) -> (V, u8) {
        match (a, b) {
            (V::Nan { .. }, _) | (_, V::Nan { .. }) => (self.qnan(), 0),
            (V::Inf(_), _) | (_, V::Zero(_)) => (self.qnan(), INVALID),
            (V::Zero(_), _) | (_, V::Inf(_)) => (a, 0),
            (V::Fin { neg, m, e }, V::Fin { m: n, e: f, .. }) => {
                let lo = e.min(f);
                // |x| = r + k*2n where everything is scaled by 2^lo
                let (x, y); // x = |a| mod 2|b|, y = |b|
                if e > f {
                    y = n;
                    let mo = 2 * n;
                    let mut r = m % mo;
                    let mut left = (e - f) as u32;
                    let step = mo.leading_zeros();
                    while left > 0 {
                        let s = left.min(step);
                        r = (r << s) % mo;
                        left -= s;
                    }
                    x = r;
                } else {
                    let g = (f - e) as i64;
                    if blen(n) as i64 + g > blen(m) as i64 + 2 {
                        // |b| > 2|a|
                        return (a, 0);
                    }
                    y = n << g;
                    x = m % (2 * y);
                }
                let odd = x >= y;
                let mut r = if odd { x - y } else { x };
                let mut rneg = neg;
                if ieee && (2 * r > y || 2 * r == y && odd) {
                    r = y - r;
                    rneg = !neg;
                }
                if r == 0 {
                    return (V::Zero(neg), 0);
                }
                let (v, st) = self.round(rneg, r, lo, false, Rm::Ne);
                assert!(st == 0, "remainder not exact");
                (v, 0)
            }
        }
    }

    /// Round to an integral value.
    pub fn rti(&self, a: V, rm: Rm) -> (V, u8) {
        match a {
            V::Fin { neg, m, e } => {
                let (i, inexact) = int_of(neg, m, e, rm);
                match i {
                    None => (a, 0), // e >= 0: integral already
                    Some(0) => (V::Zero(neg), INEXACT),
                    Some(i) => {
                        let (v, st) = self.round(neg, i, 0, false, Rm::Ne);
                        (v, if inexact { st | INEXACT } else { st })
                    }
                }
            }
            _ => (a, 0),
        }
    }

    pub fn is_integer(&self, a: V) -> bool {
        match a {
            V::Zero(_) => true,
            V::Fin { m, e, .. } => e >= 0 || e > -128 && m & mask((-e) as u32) == 0,
            _ => false,
        }
    }

    /// To integer: (value as sign/magnitude, status, exact).
    pub fn to_int(&self, a: V, width: u32, signed: bool, rm: Rm) -> (bool, u128, u8, bool) {
        let max = if signed { mask(width - 1) } else { mask(width) };
        let min = if signed { 1u128 << (width - 1) } else { 0 }; // magnitude of the lower bound
        let sat = |neg| if neg { (min != 0, min, INVALID, false) } else { (false, max, INVALID, false) };
        match a {
            V::Nan { .. } => (false, 0, INVALID, false),
            V::Inf(neg) => sat(neg),
            V::Zero(neg) => (false, 0, 0, !neg),
            V::Fin { neg, m, e } => {
                let (i, inexact) = if e >= 0 {
                    if blen(m) + e > 128 {
                        return sat(neg);
                    }
                    (m << e, false)
                } else {
                    let (i, x) = int_of(neg, m, e, rm);
                    (i.unwrap(), x)
                };
                if i > if neg { min } else { max } {
                    return sat(neg);
                }
                (neg && i != 0, i, if inexact { INEXACT } else { 0 }, !inexact)
            }
        }
    }

    pub fn scalbn(&self, a: V, n: i32, rm: Rm) -> (V, u8) {
        match a {
            V::Fin { neg, m, e } => {
                let n = n.clamp(-200_000, 200_000);
                self.round(neg, m, e + n, false, rm)
            }
            _ => (a, 0),
        }
    }

    /// floor(log2 |a|) of a finite non-zero value.
    pub fn ilogb(&self, a: V) -> Option<i32> {
        match a {
            V::Fin { m, e, .. } => Some(e + blen(m) - 1),
            _ => None,
        }
    }

    /// Compare exact values (None for NaN).
    pub fn cmp(&self, a: V, b: V) -> Option<core::cmp::Ordering> {
        cmp(a, b)
    }

    pub fn cmp_abs(&self, a: V, b: V) -> core::cmp::Ordering {
        cmp(a.with_neg(false), b.with_neg(false)).unwrap()
    }

    /// Next value up (non-NaN).
    pub fn next_up(&self, a: V) -> V {
        match a {
            V::Nan { .. } => a,
            V::Inf(false) => a,
            V::Inf(true) => self.vlargest(true),
            V::Zero(_) => self.vsmallest(false),
            V::Fin { neg, m, e } => {
                let p = self.p;
                if neg {
                    if m == 1 {
                        assert!(e == self.elsb());
                        return V::Zero(true);
                    }
                    if m == 1 << (p - 1) && e > self.elsb() {
                        return V::Fin { neg, m: mask(p), e: e - 1 };
                    }
                    V::Fin { neg, m: m - 1, e }
                } else {
                    if (m, e) == self.largest() {
                        return self.inf(false);
                    }
                    if m == mask(p) {
                        return V::Fin { neg, m: 1 << (p - 1), e: e + 1 };
                    }
                    V::Fin { neg, m: m + 1, e }
                }
            }
        }
    }

    /// Convert a value of format `self` to `dst`: value, status, loses_info (non-NaN values).
    pub fn convert(&self, dst: &Fmt, a: V, rm: Rm) -> (V, u8, bool) {
        match a {
            V::Nan { .. } => panic!("NaN conversion is modelled separately"),
            V::Inf(neg) => {
                if dst.nanonly {
                    (dst.inf(neg), INEXACT, true)
                } else {
                    (a, 0, false)
                }
            }
            V::Zero(_) => (a, 0, false),
            V::Fin { neg, m, e } => {
                let (v, st) = dst.round(neg, m, e, false, rm);
                (v, st, st != 0)
            }
        }
    }

    /// Conversion of a NaN whose source encoding is a supported NaN of `self`.
    /// Returns value, status, loses_info.
    pub fn convert_nan(&self, dst: &Fmt, neg: bool, sig: u128) -> (V, u8, bool) {
        let snan = self.is_snan(V::Nan { neg, sig });
        let st = if snan { INVALID } else { 0 };
        // payload below the integer position, quieted
        let pay = (sig & mask(self.p - 1)) | self.quiet_bit();
        if dst.nanonly {
            return (dst.qnan().with_neg(neg), st, !self.nanonly);
        }
        if self.nanonly {
            // No payload of its own: the stored all-ones field moves up like any significand.
            let d = dst.p as i32 - self.p as i32;
            let s = sig & mask(self.p - 1);
            let s = if d >= 0 { s << d } else { s >> -d };
            let s = s | dst.quiet_bit() | if dst.x87 { 1 << 63 } else { 0 };
            return (V::Nan { neg, sig: s }, st, false);
        }
        let d = dst.p as i32 - self.p as i32;
        let (s, lost) = if d >= 0 { (pay << d, false) } else { (pay >> -d, pay & mask(-d as u32) != 0) };
        // x87 signaling NaNs count among the unusual NaNs other formats cannot represent.
        let lost = lost || self.x87 && !dst.x87 && snan;
        let s = s | dst.quiet_bit() | if dst.x87 { 1 << 63 } else { 0 };
        (V::Nan { neg, sig: s }, st, lost)
    }
}

/// Integer part of m * 2^e (e < 0) rounded; None if e >= 0.
pub fn int_of(neg: bool, m: u128, e: i32, rm: Rm) -> (Option<u128>, bool) {
    if e >= 0 {
        return (None, false);
    }
    let s = (-(e as i64)) as u64;
    let (i, half, rest) = if s > 128 {
        (0, false, m != 0)
    } else if s == 128 {
        (0, m >> 127 != 0, m & mask(127) != 0)
    } else {
        (m >> s, (m >> (s - 1)) & 1 != 0, m & mask(s as u32 - 1) != 0)
    };
    let inexact = half || rest;
    let up = inexact
        && match rm {
            Rm::Ne => half && (rest || i & 1 != 0),
            Rm::Na => half,
            Rm::Up => !neg,
            Rm::Down => neg,
            Rm::Zero => false,
        };
    (Some(i + up as u128), inexact)
}

/// Exact comparison across formats.
pub fn cmp(a: V, b: V) -> Option<core::cmp::Ordering> {
    use core::cmp::Ordering::*;
    fn key(v: V) -> i32 {
        // -2 -inf, -1 negative, 0 zero, 1 positive, 2 +inf
        match v {
            V::Nan { .. } => unreachable!(),
            V::Inf(n) => if n { -2 } else { 2 },
            V::Zero(_) => 0,
            V::Fin { neg, .. } => if neg { -1 } else { 1 },
        }
    }
    if a.is_nan() || b.is_nan() {
        return None;
    }
    let (x, y) = (key(a), key(b));
    if x != y {
        return Some(x.cmp(&y));
    }
    if let (V::Fin { neg, m, e }, V::Fin { m: n, e: f, .. }) = (a, b) {
        let (ta, tb) = (e + blen(m), f + blen(n));
        let o = ta.cmp(&tb).then_with(|| {
            // same top bit: left-align
            (m << m.leading_zeros()).cmp(&(n << n.leading_zeros()))
        });
        return Some(if neg { o.reverse() } else { o });
    }
    Some(Equal)
}
