//! C22: values have no hidden state.
//!
//! Explicit-state exploration of the real code: a state is a live value together with everything
//! its `Debug` output shows of its representation. From the initial states (decoded patterns,
//! constants, parsed literals, integers) every operation is applied; in every state reached, every
//! operation is compared with the same operation on the value decoded afresh from the encoding.
use checks::*;
use rustc_apfloat::{ieee, Float, FloatConvert, Round, StatusAnd};
use std::collections::HashSet;
use std::fmt::Write;

/// What a call can show: a name (for reports) and a number.
type Obs = Vec<(&'static &'static str, u128)>;

trait Hist: Copy + Send + Sync + 'static {
    type F: Float + Send + Sync + std::fmt::Debug + 'static;
    const NAME: &'static str;
    const MASK: u128;
    const BINADES: i32;
    /// Conversions to other formats and back.
    fn convs(x: Self::F, o: &mut Obs, out: &mut Vec<Self::F>);
}
fn conv<A: Float + FloatConvert<B>, B: Float + FloatConvert<A>>(x: A, o: &mut Obs, out: &mut Vec<A>) {
    for rm in [Round::NearestTiesToEven, Round::TowardPositive] {
        let mut lose = false;
        let r: StatusAnd<B> = x.convert_r(rm, &mut lose);
        o.push((&"convert_r", r.value.to_bits()));
        o.push((&"convert_r status", st(r.status) as u128 | (lose as u128) << 8));
        let b: StatusAnd<A> = r.value.convert_r(rm, &mut lose);
        o.push((&"convert_r there and back", b.value.to_bits()));
        o.push((&"convert_r there and back status", st(b.status) as u128 | (lose as u128) << 8));
        out.push(b.value);
    }
}
macro_rules! hists {
    ($($t:ident),*) => {$(
        impl Hist for $t {
            type F = <$t as Sub>::F;
            const NAME: &'static str = stringify!($t);
            const MASK: u128 = mask(<$t as Sub>::M.bits);
            const BINADES: i32 = <$t as Sub>::M.emax;
            fn convs(x: Self::F, o: &mut Obs, out: &mut Vec<Self::F>) {
                conv::<Self::F, ieee::Half>(x, o, out);
                conv::<Self::F, ieee::Float8E4M3FN>(x, o, out);
                conv::<Self::F, ieee::Double>(x, o, out);
                conv::<Self::F, ieee::X87DoubleExtended>(x, o, out);
                conv::<Self::F, ieee::Quad>(x, o, out);
            }
        }
    )*};
}
hists!(T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, T8E4, E5M2, E4M3FN, T9E4, T10E5, Half, BFloat, Single, Double, X87, Quad);
macro_rules! dd_hists {
    ($($t:ident),*) => {$(
        impl Hist for $t {
            type F = <$t as Dd>::F;
            const NAME: &'static str = stringify!($t);
            const MASK: u128 = mask(2 * <<$t as Dd>::C as Sub>::M.bits);
            const BINADES: i32 = <<$t as Dd>::C as Sub>::M.emax;
            fn convs(_: Self::F, _: &mut Obs, _: &mut Vec<Self::F>) {}
        }
    )*};
}
dd_hists!(DD7, DD8, DDouble);

fn text_hash(s: &str) -> u128 {
    s.bytes().fold(0x6c62272e07bb014262b821756295c58du128, |h, b| (h ^ b as u128).wrapping_mul(0x1000000000000000000013b))
}

/// Every operation on one value.
fn unary<T: Hist>(c: &mut Ctx, x: T::F, id: u128, o: &mut Obs, out: &mut Vec<T::F>) {
    macro_rules! see {
        ($op:literal, $e:expr) => {{
            c.at(&$op, id, 0, 0, 0);
            o.push((&$op, $e as u128));
        }};
    }
    macro_rules! val {
        ($op:literal, $e:expr) => {{
            c.at(&$op, id, 0, 0, 0);
            let v: T::F = $e;
            o.push((&$op, v.to_bits()));
            out.push(v);
        }};
    }
    macro_rules! sval {
        ($op:literal, $e:expr) => {{
            c.at(&$op, id, 0, 0, 0);
            let v: StatusAnd<T::F> = $e;
            o.push((&$op, v.value.to_bits()));
            o.push((&concat!($op, " status"), st(v.status) as u128));
            out.push(v.value);
        }};
    }
    see!("to_bits", x.to_bits());
    see!("category", x.category());
    see!("is_negative", x.is_negative());
    see!("is_denormal", x.is_denormal());
    see!("is_normal", x.is_normal());
    see!("is_signaling", x.is_signaling());
    see!("is_integer", x.is_integer());
    see!("is_smallest", x.is_smallest());
    see!("is_largest", x.is_largest());
    see!("is_smallest_normalized", x.is_smallest_normalized());
    see!("ilogb", x.ilogb() as u32);
    val!("neg", -x);
    val!("abs", x.abs());
    sval!("next_up", x.next_up());
    sval!("next_down", x.next_down());
    for rm in RMS {
        let r = rnd(rm);
        sval!("round_to_integral", x.round_to_integral(r));
        let mut e = 0;
        val!("frexp_r", x.frexp_r(&mut e, r));
        see!("frexp_r exponent", e as u32);
        for w in [8, 32, 128] {
            let mut ex = false;
            c.at(&"to_u128_r", id, w as u128, 0, rm as u64);
            let i = x.to_u128_r(w, r, &mut ex);
            o.push((&"to_u128_r", i.value));
            o.push((&"to_u128_r status", st(i.status) as u128 | (ex as u128) << 8));
            c.at(&"to_i128_r", id, w as u128, 0, rm as u64);
            let i = x.to_i128_r(w, r, &mut ex);
            o.push((&"to_i128_r", i.value as u128));
            o.push((&"to_i128_r status", st(i.status) as u128 | (ex as u128) << 8));
        }
    }
    let b = T::BINADES;
    for n in [0, 1, -1, 2, -3, 7, b, -b, 2 * b, -2 * b, 3 * b + 1000, -3 * b - 1000, i32::MAX, i32::MIN] {
        val!("scalbn", x.scalbn(n));
        val!("scalbn toward zero", x.scalbn_r(n, Round::TowardZero));
    }
    c.at(&"get_exact_inverse", id, 0, 0, 0);
    let i = x.get_exact_inverse();
    o.push((&"get_exact_inverse", i.map_or(u128::MAX, |v| v.to_bits())));
    out.extend(i);
    let mut s = String::new();
    if !costly::<T>(x) {
        c.at(&"Display", id, 0, 0, 0);
        let _ = write!(s, "{x} {x:.3} {x:#0} {x:#20.1}");
    }
    o.push((&"Display", text_hash(&s)));
    c.at(&"convert_r", id, 0, 0, 0);
    T::convs(x, o, out);
}

/// Every operation on two values, and fused multiply-add with a third.
fn binary<T: Hist>(c: &mut Ctx, x: T::F, y: T::F, z: T::F, ids: (u128, u128), o: &mut Obs, out: &mut Vec<T::F>) {
    macro_rules! see {
        ($op:literal, $e:expr) => {{
            c.at(&$op, ids.0, ids.1, 0, 0);
            o.push((&$op, $e as u128));
        }};
    }
    macro_rules! val {
        ($op:literal, $e:expr) => {{
            c.at(&$op, ids.0, ids.1, 0, 0);
            let v: T::F = $e;
            o.push((&$op, v.to_bits()));
            out.push(v);
        }};
    }
    macro_rules! sval {
        ($op:literal, $e:expr) => {{
            c.at(&$op, ids.0, ids.1, 0, 0);
            let v: StatusAnd<T::F> = $e;
            o.push((&$op, v.value.to_bits()));
            o.push((&concat!($op, " status"), st(v.status) as u128));
            out.push(v.value);
        }};
    }
    for rm in [Rm::Ne, Rm::Down, Rm::Zero] {
        let r = rnd(rm);
        sval!("add_r", x.add_r(y, r));
        sval!("sub_r", x.sub_r(y, r));
        sval!("mul_r", x.mul_r(y, r));
        sval!("div_r", x.div_r(y, r));
        sval!("mul_add_r", x.mul_add_r(y, z, r));
    }
    sval!("mul_add_r as addend", y.mul_add_r(z, x, Round::NearestTiesToEven));
    sval!("ieee_rem", x.ieee_rem(y));
    sval!("c_fmod", x.c_fmod(y));
    val!("copy_sign", x.copy_sign(y));
    val!("min", x.min(y));
    val!("max", x.max(y));
    val!("minimum", x.minimum(y));
    val!("maximum", x.maximum(y));
    see!("partial_cmp", x.partial_cmp(&y).map_or(9, |o| o as i8 as u8));
    see!("eq", x == y);
    see!("bitwise_eq", x.bitwise_eq(y));
    if x.is_finite_non_zero() && y.is_finite_non_zero() {
        see!("cmp_abs_normal", x.cmp_abs_normal(y) as i8 as u8);
    }
}

/// Printing numbers this large or small (and `Debug` prints them) is left to a few histories.
fn costly<T: Hist>(x: T::F) -> bool {
    x.is_finite_non_zero() && x.ilogb().unsigned_abs() > 400
}

/// How far apart, for remainders (their cost is linear in the distance of the exponents).
fn far<T: Hist>(x: T::F, y: T::F) -> bool {
    x.is_finite_non_zero() && y.is_finite_non_zero() && x.ilogb() - y.ilogb() > 600
}

fn differ<T: Hist>(c: &mut Ctx, live: &str, what: String, a: &Obs, b: &Obs) -> bool {
    c.transitions += a.len() as u64;
    for (p, q) in a.iter().zip(b) {
        if p.1 != q.1 {
            c.fail(format!("{} {}{}: {:#x} on the value reached, {:#x} on the same value decoded afresh (reached {})", T::NAME, p.0, what, p.1, q.1, live));
            return true;
        }
    }
    false
}

struct Node<F> {
    x: F,
    how: String,
    depth: u32,
}

/// Explore from `init`, to `depth` operations, `ys` being the other operands.
fn explore<T: Hist>(c: &mut Ctx, init: Vec<(T::F, String)>, ys: &[u128], depth: u32, cap: usize) {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut todo: Vec<Node<T::F>> = vec![];
    let mut key = String::new();
    let mut drifted: Vec<T::F> = vec![];
    let mut add = |todo: &mut Vec<Node<T::F>>, drifted: &mut Vec<T::F>, x: T::F, how: &dyn Fn() -> String, depth: u32| {
        key.clear();
        let costly = costly::<T>(x);
        let _ = if costly { write!(key, "{:x}", x.to_bits()) } else { write!(key, "{:x} {:?}", x.to_bits(), x) };
        if seen.insert(text_hash(&key)) {
            let f = T::F::from_bits(x.to_bits());
            let n = key.len();
            if !costly {
                let _ = write!(key, "{:x} {:?}", f.to_bits(), f);
            }
            // up to three of a class and sign serve as other operands
            let class = |v: &T::F| (v.category(), v.is_negative());
            if !costly && key[..n] != key[n..] && drifted.iter().filter(|v| class(v) == class(&x)).count() < 3 {
                drifted.push(x);
            }
            todo.push(Node { x, how: how(), depth });
        }
    };
    for (x, how) in init {
        add(&mut todo, &mut drifted, x, &|| how.clone(), 0);
    }
    let z = T::F::from_bits(ys[ys.len() / 3]);
    let (mut o1, mut o2, mut out, mut sink) = (vec![], vec![], vec![], vec![]);
    let mut i = 0;
    let mut deepest = 0;
    while i < todo.len() && i < cap {
        let (x, d) = (todo[i].x, todo[i].depth);
        let id = x.to_bits();
        let how = todo[i].how.clone();
        c.states += 1;
        deepest = deepest.max(d);
        o1.clear();
        o2.clear();
        out.clear();
        sink.clear();
        let fresh = T::F::from_bits(id);
        unary::<T>(c, x, id, &mut o1, &mut out);
        unary::<T>(c, fresh, id, &mut o2, &mut sink);
        if differ::<T>(c, &how, format!("({id:#x})"), &o1, &o2) {
            return;
        }
        if d < depth {
            for (n, &v) in out.iter().enumerate() {
                add(&mut todo, &mut drifted, v, &|| format!("{how}; unary {n}"), d + 1);
            }
        }
        for (j, y) in ys.iter().map(|&b| T::F::from_bits(b)).chain(drifted.clone()).enumerate() {
            if far::<T>(x, y) || far::<T>(y, x) {
                continue;
            }
            o1.clear();
            o2.clear();
            out.clear();
            sink.clear();
            let yid = y.to_bits();
            let yfresh = T::F::from_bits(yid);
            binary::<T>(c, x, y, z, (id, yid), &mut o1, &mut out);
            binary::<T>(c, fresh, yfresh, z, (id, yid), &mut o2, &mut sink);
            if differ::<T>(c, &how, format!("({id:#x}, {yid:#x})"), &o1, &o2) {
                return;
            }
            o1.clear();
            o2.clear();
            binary::<T>(c, y, x, z, (yid, id), &mut o1, &mut out);
            binary::<T>(c, yfresh, fresh, z, (yid, id), &mut o2, &mut sink);
            if differ::<T>(c, &how, format!("({yid:#x}, {id:#x}), second operand"), &o1, &o2) {
                return;
            }
            if d < depth {
                for (n, &v) in out.iter().enumerate() {
                    add(&mut todo, &mut drifted, v, &|| format!("{how}; binary {n} with operand {j}"), d + 1);
                }
            }
        }
        c.outcome(id ^ text_hash(&how));
        c.traces += 1;
        i += 1;
    }
    c.sample(|| {
        format!(
            "{}: {} representations of values, at least {} of them other than freshly decoded ones, {} operations deep{}",
            T::NAME,
            todo.len(),
            drifted.len(),
            deepest,
            if i < todo.len() { " (cap reached)" } else if deepest < depth { " (no more are reachable)" } else { "" }
        )
    });
}

/// Initial states that do not come from bits.
fn others<T: Hist>() -> Vec<(T::F, String)> {
    let mut v = vec![];
    for (x, n) in [
        (T::F::ZERO, "ZERO"),
        (T::F::INFINITY, "INFINITY"),
        (T::F::NAN, "NAN"),
        (T::F::SMALLEST, "SMALLEST"),
        (T::F::largest(), "largest"),
        (T::F::smallest_normalized(), "smallest_normalized"),
        (T::F::default(), "default"),
        (T::F::qnan(Some(5)), "qnan"),
        (T::F::snan(Some(5)), "snan"),
        (T::F::snan(None), "snan"),
    ] {
        v.push((x, n.to_string()));
        v.push((-x, format!("-{n}")));
    }
    for s in ["0", "-0", "0x0p5", "0e99999", "-1e-99999", "1e99999", "-0x1p99999", "0x1p-99999", "1", "-3", "0x1.8p1", "1e-1", "inf", "-inf", "nan", "-snan(0x7)", "NaN3"] {
        for rm in RMS {
            if let Ok(r) = T::F::from_str_r(s, rnd(rm)) {
                v.push((r.value, format!("from_str_r({s:?}, {rm:?})")));
            }
        }
    }
    for n in [0u128, 1, 5, 1 << 20, u128::MAX] {
        for rm in RMS {
            v.push((T::F::from_u128_r(n, rnd(rm)).value, format!("from_u128_r({n}, {rm:?})")));
            v.push((T::F::from_i128_r(n as i128 - 7, rnd(rm)).value, format!("from_i128_r({}, {rm:?})", n as i128 - 7)));
        }
    }
    v
}

/// The whole reachable space of a small format.
fn whole<T: Hist>(k: &mut Check, operands: usize, cap: usize) {
    k.job(
        format!("closure {}", T::NAME),
        true,
        format!("all values and constants, literals, integers; every operation with {} other operands, to a fixed point or 4 operations, at most {cap} representations", operands.min(T::MASK as usize + 1)),
        1,
        move |_, c| {
            let mut init = others::<T>();
            init.extend((0..=T::MASK).map(|b| (T::F::from_bits(b), format!("from_bits({b:#x})"))));
            let ys = thin((0..=T::MASK).collect(), operands);
            explore::<T>(c, init, &ys, 4, cap);
        },
    );
}
/// Histories from seeds.
fn seeds<T: Hist>(k: &mut Check, seeds: Vec<u128>, operands: usize, depth: u32, cap: usize) {
    let ys = thin(seeds.clone(), operands);
    let n = seeds.len() as u64 + 1;
    k.job(
        format!("histories {}", T::NAME),
        true,
        format!("{} seed values, constants, literals, integers; histories of {depth} operations with {} other operands, at most {cap} representations per seed, remainders of operands with near exponents", seeds.len(), ys.len()),
        n,
        move |i, c| {
            if i + 1 == n {
                explore::<T>(c, others::<T>(), &ys, depth.min(1), cap);
            } else {
                let b = seeds[i as usize];
                explore::<T>(c, vec![(T::F::from_bits(b), format!("from_bits({b:#x})"))], &ys, depth, cap);
            }
        },
    );
}
fn seed_values(m: &Fmt, n: usize) -> Vec<u128> {
    let mut v = thin(values(m, 2, true), n);
    let top = m.exp_mask() << m.sig_bits();
    v.extend([0, 1, m.sign_bit(), m.sign_bit() | 2, m.encode(m.vlargest(false)), m.encode(m.inf(true)), top | 1, m.encode(m.qnan())]);
    if m.x87 {
        v.extend(thin(x87_odd(), 6));
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    let k = &mut Check::new("C22");
    let t = k.thorough();
    let q = |a, b| if t { b } else { a };
    macro_rules! wholes {
        ($($t:ident: $n:expr),*) => {$( whole::<$t>(k, $n, q(8000, 40000)); )*};
    }
    wholes!(T6E3: 64, N6E3: 64, T7E3: q(40, 128), N7E3: q(40, 128), T7E4: q(40, 128), N7E4: q(40, 128), T8E4: q(20, 256), E5M2: q(20, 256), E4M3FN: q(20, 256), T9E4: q(6, 100), T10E5: q(6, 60));
    macro_rules! seeded {
        ($($t:ident),*) => {$( seeds::<$t>(k, seed_values(&<$t as Sub>::M, q(24, 60)), q(6, 10), 2, q(2000, 20000)); )*};
    }
    seeded!(Half, BFloat, Single, Double, X87, Quad);
    seeds::<DD7>(k, thin(canonicals::<DD7>().into_iter().map(|(h, l)| h | l << 7).collect(), q(60, 400)), q(5, 10), 2, q(300, 5000));
    seeds::<DD8>(k, thin((0..1 << 16).collect(), q(60, 400)), q(5, 10), 2, q(300, 5000));
    seeds::<DDouble>(k, thin(dd_values::<DDouble>(2, false), q(16, 100)), q(5, 10), 2, q(300, 5000));
    k.run()
}
