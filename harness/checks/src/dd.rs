//! Double-doubles: pairs of a component format, and the exact arithmetic their checks need.

use crate::*;
use model::big::Big;
use rustc_apfloat::ppc::DoubleFloat;
use rustc_apfloat::Float;
use std::cmp::Ordering;

/// A double-double type over the component `C`.
pub trait Dd: Copy + Send + Sync + 'static {
    type C: Sub;
    type F: Float + Send + Sync + std::fmt::Debug + 'static;
    const NAME: &'static str;
    /// The format of the arithmetic that operations without an own algorithm fall back to.
    const FB: Fmt;
}
const fn fallback(m: Fmt) -> Fmt {
    Fmt { name: "fallback", bits: 0, exp_bits: 0, p: 2 * m.p, emin: m.emin + m.p as i32, emax: m.emax, nanonly: false, x87: false }
}
macro_rules! dds {
    ($($name:ident: $c:ident;)*) => {$(
        #[derive(Copy, Clone)]
        pub struct $name;
        impl Dd for $name {
            type C = $c;
            type F = DoubleFloat<<$c as Sub>::F>;
            const NAME: &'static str = stringify!($name);
            const FB: Fmt = fallback(<$c as Sub>::M);
        }
    )*};
}
dds! {
    DD7: T7E4;
    DD8: T8E4;
    DD9: T9E4;
    DD10: T10E5;
    DDouble: Double;
}

/// Component format.
pub fn cm<T: Dd>() -> &'static Fmt {
    &<T::C as Sub>::M
}
pub fn mk<T: Dd>(hi: u128, lo: u128) -> T::F {
    T::F::from_bits(hi | lo << cm::<T>().bits)
}
pub fn halves<T: Dd>(bits: u128) -> (u128, u128) {
    let b = cm::<T>().bits;
    (bits & mask(b), bits >> b)
}
pub fn vals<T: Dd>(x: T::F) -> (V, V) {
    let (h, l) = halves::<T>(x.to_bits());
    (cm::<T>().decode(h), cm::<T>().decode(l))
}
pub fn showp<T: Dd>(x: u128) -> String {
    let (h, l) = halves::<T>(x);
    format!("({}, {})", showv(cm::<T>(), h), showv(cm::<T>(), l))
}
/// hi = RN(hi + lo), lo a zero when hi is zero or not finite.
pub fn canonical(m: &Fmt, hi: V, lo: V) -> bool {
    if !hi.is_fin_nz() {
        return lo.is_zero();
    }
    if !lo.is_finite() {
        return false;
    }
    let (s, _) = m.add(hi, lo, Rm::Ne);
    s == hi
}

/// Signed multiple of the least subnormal of the component format.
#[derive(Clone, Debug, PartialEq)]
pub struct Sum {
    pub neg: bool,
    pub mag: Big,
}
impl Sum {
    pub fn of(m: &Fmt, v: V) -> Sum {
        match v {
            V::Fin { neg, m: s, e } => Sum { neg, mag: Big::from(s).shl((e - m.elsb()) as usize) },
            _ => Sum { neg: false, mag: Big::from(0) },
        }
    }
    pub fn add(&self, o: &Sum) -> Sum {
        if self.neg == o.neg {
            return Sum { neg: self.neg, mag: self.mag.add(&o.mag) };
        }
        let (x, y) = if self.mag.cmp(&o.mag).is_ge() { (self, o) } else { (o, self) };
        let mut r = x.mag.clone();
        r.sub_assign(&y.mag);
        let z = r.is_zero();
        Sum { neg: x.neg && !z, mag: r }
    }
    pub fn negate(&self) -> Sum {
        Sum { neg: !self.neg && !self.mag.is_zero(), mag: self.mag.clone() }
    }
    pub fn mul(&self, o: &Sum) -> Sum {
        Sum { neg: self.neg != o.neg && !self.mag.is_zero() && !o.mag.is_zero(), mag: self.mag.mul(&o.mag) }
    }
    pub fn shl(&self, n: usize) -> Sum {
        Sum { neg: self.neg, mag: self.mag.shl(n) }
    }
    pub fn cmp(&self, o: &Sum) -> std::cmp::Ordering {
        let d = self.add(&o.negate());
        if d.mag.is_zero() {
            std::cmp::Ordering::Equal
        } else if d.neg {
            std::cmp::Ordering::Less
        } else {
            std::cmp::Ordering::Greater
        }
    }
}
pub fn pair_sum(m: &Fmt, hi: V, lo: V) -> Sum {
    Sum::of(m, hi).add(&Sum::of(m, lo))
}

/// The value an operation that falls back to 2p-bit arithmetic sees.
pub fn to_fb<T: Dd>(hi: V, lo: V) -> V {
    let (m, fb) = (cm::<T>(), &T::FB);
    match hi {
        V::Fin { .. } => {
            // both halves are values of the fallback format (same least bit, larger precision)
            let (h, l) = (refit(fb, hi), refit(fb, lo));
            let _ = m;
            fb.add(h, l, Rm::Ne).0
        }
        _ => hi,
    }
}
/// The same finite value with the significand normalized for format `m`.
pub fn refit(m: &Fmt, v: V) -> V {
    match v {
        V::Fin { neg, m: s, e } => m.round(neg, s, e, false, Rm::Ne).0,
        V::Nan { neg, .. } => m.qnan().with_neg(neg),
        _ => v,
    }
}
/// The pair a 2p-bit value is split into: hi = RN(v), lo = v - hi.
pub fn split<T: Dd>(v: V) -> (V, V) {
    let m = cm::<T>();
    match v {
        V::Fin { neg, m: s, e } => {
            let (hi, _) = m.round(neg, s, e, false, Rm::Ne);
            if !hi.is_fin_nz() {
                return (hi, V::Zero(false));
            }
            let lo = T::FB.sub(v, refit(&T::FB, hi), Rm::Ne);
            assert_eq!(lo.1, 0);
            match lo.0 {
                V::Fin { neg, m: s, e } => {
                    let (lo, st) = m.round(neg, s, e, false, Rm::Ne);
                    assert_eq!(st, 0);
                    (hi, lo)
                }
                _ => (hi, V::Zero(false)),
            }
        }
        V::Nan { neg, .. } => (m.qnan().with_neg(neg), V::Zero(false)),
        _ => (v, V::Zero(false)),
    }
}
/// Same high half and same low half, up to the sign of a zero low half (NaNs match any NaN).
pub fn same_pair<T: Dd>(got: u128, want: (V, V)) -> bool {
    let m = cm::<T>();
    let (h, l) = halves::<T>(got);
    let (h, l) = (m.decode(h), m.decode(l));
    if want.0.is_nan() {
        return h.is_nan();
    }
    h == want.0 && (l == want.1 || l.is_zero() && want.1.is_zero())
}
/// All canonical pairs of a tiny component format.
pub fn canonicals<T: Dd>() -> Vec<(u128, u128)> {
    let m = cm::<T>();
    let n = 1u128 << m.bits;
    let mut r = vec![];
    for h in 0..n {
        for l in 0..n {
            let (hv, lv) = (m.decode(h), m.decode(l));
            if canonical(m, hv, lv) && (hv.is_fin_nz() || l == 0) && !(lv.is_zero() && lv.neg()) {
                r.push((h, l));
            }
        }
    }
    r
}

/// Structured canonical pairs: high halves from the value lattice, low halves at many distances.
pub fn dd_values<T: Dd>(nsig: usize, dense: bool) -> Vec<u128> {
    let m = cm::<T>();
    let mut r = vec![];
    for h in values(m, nsig, dense) {
        let hv = m.decode(h);
        let mut los = vec![V::Zero(false)];
        if let V::Fin { e, .. } = hv {
            // e: exponent of the last place of the high half
            let p = m.p as i32;
            let mut put = |top: i32, s: u128| {
                // significand s (p bits) with its leading bit at 2^top
                let (v, _) = m.round(false, s, top - (blen(s) - 1), false, Rm::Ne);
                los.push(v);
                los.push(v.negate());
            };
            for s in few_sigs(m.p) {
                for g in [1, 2, 3, p / 2, p - 1, p, p + 1, 2 * p] {
                    put(e - g, s);
                }
            }
            put(m.elsb(), 1);
            put(m.elsb() + 1, 3);
        }
        for l in los {
            if canonical(m, hv, l) {
                r.push(h | m.encode(l) << m.bits);
            }
        }
    }
    r.sort();
    r.dedup();
    r
}
pub fn thin<X: Clone>(v: Vec<X>, n: usize) -> Vec<X> {
    if v.len() <= n {
        return v;
    }
    (0..n).map(|i| v[i * v.len() / n].clone()).collect()
}

/// Exact sums of the halves in units of the least subnormal. `I` is wide enough for products.
pub trait Int: Clone + Send + Sync + 'static {
    fn pair(m: &Fmt, h: V, l: V) -> Self;
    fn add(&self, o: &Self) -> Self;
    fn negate(&self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn shl(&self, n: usize) -> Self;
    fn times(&self, k: i128) -> Self;
    fn abs(&self) -> Self;
    fn order(&self, o: &Self) -> Ordering;
    fn is_zero(&self) -> bool;
    fn neg(&self) -> bool;
    fn approx(&self) -> f64;
}
impl Int for i128 {
    fn pair(m: &Fmt, h: V, l: V) -> i128 {
        let one = |v| match v {
            V::Fin { neg, m: s, e } => {
                let x = (s as i128) << (e - m.elsb());
                if neg { -x } else { x }
            }
            _ => 0,
        };
        one(h) + one(l)
    }
    fn add(&self, o: &i128) -> i128 {
        self + o
    }
    fn negate(&self) -> i128 {
        -self
    }
    fn mul(&self, o: &i128) -> i128 {
        self.checked_mul(*o).unwrap()
    }
    fn shl(&self, n: usize) -> i128 {
        self.checked_mul(1 << n).unwrap()
    }
    fn times(&self, k: i128) -> i128 {
        self * k
    }
    fn abs(&self) -> i128 {
        i128::abs(*self)
    }
    fn order(&self, o: &i128) -> Ordering {
        self.cmp(o)
    }
    fn is_zero(&self) -> bool {
        *self == 0
    }
    fn neg(&self) -> bool {
        *self < 0
    }
    fn approx(&self) -> f64 {
        *self as f64
    }
}
impl Int for Sum {
    fn pair(m: &Fmt, h: V, l: V) -> Sum {
        pair_sum(m, h, l)
    }
    fn add(&self, o: &Sum) -> Sum {
        Sum::add(self, o)
    }
    fn negate(&self) -> Sum {
        Sum::negate(self)
    }
    fn mul(&self, o: &Sum) -> Sum {
        Sum::mul(self, o)
    }
    fn shl(&self, n: usize) -> Sum {
        Sum::shl(self, n)
    }
    fn times(&self, k: i128) -> Sum {
        Sum::mul(self, &Sum { neg: k < 0, mag: model::big::Big::from(k.unsigned_abs()) })
    }
    fn abs(&self) -> Sum {
        Sum { neg: false, mag: self.mag.clone() }
    }
    fn order(&self, o: &Sum) -> Ordering {
        Sum::cmp(self, o)
    }
    fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    fn neg(&self) -> bool {
        self.neg
    }
    fn approx(&self) -> f64 {
        f64::NAN
    }
}

/// A pair of halves, decoded.
pub struct Val<I> {
    pub bits: u128,
    pub h: V,
    pub l: V,
    pub x: I,
    pub fb: V,
}
pub fn val<T: Dd, I: Int>(bits: u128) -> Val<I> {
    let m = cm::<T>();
    let (h, l) = halves::<T>(bits);
    let (h, l) = (m.decode(h), m.decode(l));
    Val { bits, h, l, x: I::pair(m, h, l), fb: to_fb::<T>(h, l) }
}


pub fn canon_bits<T: Dd>() -> Vec<u128> {
    canonicals::<T>().into_iter().map(|(h, l)| h | l << cm::<T>().bits).collect()
}
pub fn dd_pairs<T: Dd, I: Int>(k: &mut Check, tag: &str, what: &str, all: Vec<u128>, some: usize, f: impl Fn(&mut Ctx, &Val<I>, &Val<I>) + Send + Sync + 'static) {
    let rows: Vec<Val<I>> = thin(all.clone(), some).into_iter().map(|b| val::<T, I>(b)).collect();
    let chunk = rows.len().div_ceil(512);
    let n = rows.len().div_ceil(chunk) as u64;
    let square = rows.len() == all.len();
    let cols: Vec<Val<I>> = all.into_iter().map(|b| val::<T, I>(b)).collect();
    k.job(
        format!("{tag} {}", T::NAME),
        true,
        format!("{} canonical pairs ({what}) against {} of them, in both orders", cols.len(), rows.len()),
        n,
        move |i, c| {
            for a in rows.iter().skip(i as usize * chunk).take(chunk) {
                for b in &cols {
                    f(c, a, b);
                    if !square {
                        f(c, b, a);
                    }
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}
pub fn each<T: Dd>(k: &mut Check, name: &str, what: &str, v: Vec<u128>, f: impl Fn(&mut Ctx, u128) + Send + Sync + 'static) {
    let chunk = v.len().div_ceil(512).max(1);
    let n = v.len().div_ceil(chunk) as u64;
    k.job(format!("{name} {}", T::NAME), true, format!("{} {what}", v.len()), n, move |i, c| {
        for &a in v.iter().skip(i as usize * chunk).take(chunk) {
            f(c, a);
            if c.failed() {
                return;
            }
        }
    });
}

/// A canonical pair whose high half has biased exponent `be`; the low half is `kind`-dependent: none, next to
/// the last place of the high half, at a distance up to the whole range, subnormal, a tie.
pub fn dd_pick<T: Dd>(be: i64, seed: u64) -> u128 {
    let m = cm::<T>();
    let p = m.p as i64;
    let h = scramble(seed ^ 0x5555 << 40);
    let be = be.clamp(0, m.exp_mask() as i64 - 1);
    let hi = pick(m, be, seed);
    let (d, u) = ((h >> 16) as i64 & 0xffff, (h >> 64) as i64 & 0xff_ffff);
    let lo = match h & 7 {
        0 => return hi,
        1 | 2 => be - p - d % 3,
        3 | 4 => be - p - d % (p + 8),
        5 | 6 => u % (be - p + 1).max(1),
        _ => 0,
    };
    for lo in [lo, lo - 1, lo - 2] {
        if lo >= 0 {
            let l = pick(m, lo, seed ^ 0x3333 << 40);
            if canonical(m, m.decode(hi), m.decode(l)) && m.decode(l).is_fin_nz() {
                return hi | l << m.bits;
            }
        }
    }
    hi
}
/// `n` canonical pairs with the high half at every exponent.
pub fn dd_range_values<T: Dd>(n: usize) -> Vec<u128> {
    let top = cm::<T>().exp_mask() as u64;
    (0..top).flat_map(|be| (0..n as u64).map(move |j| dd_pick::<T>(be as i64, be << 16 | j))).collect()
}
/// Canonical pairs of the exponents of `range_pairs`.
pub fn dd_range_pairs<T: Dd, I: Int>(k: &mut Check, tag: &str, n: usize, f: impl Fn(&mut Ctx, &Val<I>, &Val<I>) + Send + Sync + 'static) {
    let m = cm::<T>();
    let top = m.exp_mask() as i64;
    k.job(
        format!("{tag} range {}", T::NAME),
        true,
        format!("{n} x 16 canonical pairs for each i in 0..{}: high halves at exponent i and near, distance i from either end, exponent i of a product and of a quotient", top + 2 * m.p as i64),
        (top + 2 * m.p as i64) as u64,
        move |i, c| {
            for r in 0..n as u64 {
                for (j, (x, y)) in range_exps(top, 2 * m.p as i64, i as i64, r).into_iter().enumerate() {
                    let sd = (i << 8 | r) << 8 | (j as u64) << 1;
                    let (a, b) = (val::<T, I>(dd_pick::<T>(x, sd)), val::<T, I>(dd_pick::<T>(y, sd | 1)));
                    f(c, &a, &b);
                    if c.failed() {
                        return;
                    }
                }
            }
        },
    );
}

/// Canonical pairs around the integers: high halves at every exponent of -3..=130 against low halves at every
/// distance up to 110 below.
pub fn dd_grid_values<T: Dd>(n: usize) -> Vec<u128> {
    let m = cm::<T>();
    let p = m.p as i64;
    let bias = (m.exp_mask() as i64 - 1) / 2;
    let mut r = vec![];
    for e in -3..=130i64 {
        for g in 0..110 {
            for j in 0..n as u64 {
                let sd = ((e + 3) as u64) << 20 | (g as u64) << 8 | j;
                let (hi, lo) = (pick(m, bias + e, sd), pick(m, bias + e - p - g, sd ^ 0x3333 << 40));
                if canonical(m, m.decode(hi), m.decode(lo)) {
                    r.push(hi | lo << m.bits);
                }
            }
        }
    }
    r
}
