//! C12: bit encodings, classification and constants.
use checks::*;
use rustc_apfloat::{ieee, Category, Float, FloatConvert};

fn one<T: Sub>(c: &mut Ctx, a: u128)
where
    T::F: FloatConvert<ieee::Quad>,
{
    let m = &T::M;
    let v = m.decode(a);
    c.states += 1;
    c.at(&"from_bits/to_bits/queries", a, 0, 0, 0);
    let x = T::F::from_bits(a);
    let odd = m.unsupported(a);
    let back = x.to_bits();
    c.transitions += 1;
    if odd && v.is_nan() {
        if !m.decode(back).is_nan() || m.decode(back).neg() != v.neg() {
            return c.fail(format!("{} unsupported {:#x} reads back as {}", m.name, a, showv(m, back)));
        }
    } else if back != m.encode(v) {
        return c.fail(format!("{} {:#x} encodes back to {:#x}", m.name, a, back));
    }
    let neg = v.neg();
    let sub = m.subnormal(v);
    let cat = match v {
        V::Nan { .. } => Category::NaN,
        V::Inf(_) => Category::Infinity,
        V::Zero(_) => Category::Zero,
        V::Fin { .. } => Category::Normal,
    };
    macro_rules! q {
        ($($name:ident = $want:expr;)*) => { $( {
            let (g, w) = (x.$name(), $want);
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {}({}) = {:?}, expected {:?}", m.name, stringify!($name), showv(m, a), g, w));
            }
        } )* };
    }
    let mag = v.with_neg(false);
    q! {
        category = cat;
        is_negative = neg;
        is_zero = v.is_zero();
        is_nan = v.is_nan();
        is_infinite = v.is_inf();
        is_finite = v.is_finite();
        is_finite_non_zero = v.is_fin_nz();
        is_non_zero = !v.is_zero();
        is_denormal = sub;
        is_normal = v.is_fin_nz() && !sub;
        is_pos_zero = v.is_zero() && !neg;
        is_neg_zero = v.is_zero() && neg;
        is_pos_infinity = v.is_inf() && !neg;
        is_neg_infinity = v.is_inf() && neg;
        is_smallest = mag == m.vsmallest(false);
        is_largest = mag == m.vlargest(false);
        is_smallest_normalized = mag == V::Fin { neg: false, m: 1 << (m.p - 1), e: m.elsb() };
    }
    if !(odd && v.is_nan()) {
        q! { is_signaling = m.is_snan(v); }
        for (op, g, w) in [
            ("neg", (-x).to_bits(), m.encode(v.negate())),
            ("abs", x.abs().to_bits(), m.encode(mag)),
            ("copy_sign(-0)", x.copy_sign(-T::F::ZERO).to_bits(), m.encode(v.with_neg(true))),
            ("copy_sign(+inf)", x.copy_sign(T::F::from_bits(0)).to_bits(), m.encode(mag)),
        ] {
            c.transitions += 1;
            if g != w {
                return c.fail(format!("{} {op}({}) = {}", m.name, showv(m, a), showv(m, g)));
            }
        }
    }
    // The represented value, observed through the (exact) widening to Quad.
    if !v.is_nan() {
        let mut l = false;
        let w = FloatConvert::<ieee::Quad>::convert(x, &mut l);
        let want = match v {
            V::Fin { neg, m, e } => model::QUAD.round(neg, m, e, false, Rm::Ne).0,
            _ => v,
        };
        c.transitions += 1;
        if w.value.to_bits() != model::QUAD.encode(want) {
            return c.fail(format!("{} {} widens to {}", m.name, showv(m, a), showv(&model::QUAD, w.value.to_bits())));
        }
    }
    c.outcome(back ^ (m.bits as u128) << 112);
    c.traces += 1;
    c.sample(|| format!("{} {} {:?}", m.name, showv(m, a), cat));
}

fn constants<T: Sub>(k: &mut Check) {
    k.job(format!("constants {}", T::M.name), true, "constants and NaN factories with every single-bit, run and pattern payload", 1, |_, c| {
        let m = &T::M;
        let f = |v: T::F| v.to_bits();
        let chk = |c: &mut Ctx, what: &str, got: u128, want: u128| {
            c.transitions += 1;
            if got != want {
                c.fail(format!("{} {what} = {:#x}, expected {:#x}", m.name, got, want));
            }
        };
        c.states += 1;
        chk(c, "BITS", T::F::BITS as u128, m.bits as u128);
        chk(c, "PRECISION", T::F::PRECISION as u128, m.p as u128);
        chk(c, "MAX_EXP", T::F::MAX_EXP as u128, m.emax as u128);
        chk(c, "MIN_EXP", T::F::MIN_EXP as u128, m.emin as u128);
        chk(c, "ZERO", f(T::F::ZERO), 0);
        chk(c, "INFINITY", f(T::F::INFINITY), m.encode(m.inf(false)));
        chk(c, "NAN", f(T::F::NAN), m.encode(m.qnan()));
        chk(c, "SMALLEST", f(T::F::SMALLEST), 1);
        chk(c, "largest", f(T::F::largest()), m.encode(m.vlargest(false)));
        chk(c, "smallest_normalized", f(T::F::smallest_normalized()), m.encode(V::Fin { neg: false, m: 1 << (m.p - 1), e: m.elsb() }));
        let mut pays = vec![0u128, !0];
        for i in 0..128 {
            pays.extend([1u128 << i, mask(i), !mask(i), !(1u128 << i)]);
        }
        pays.extend(patterns());
        c.at(&"qnan/snan", 0, 0, 0, 0);
        chk(c, "qnan(None)", f(T::F::qnan(None)), m.encode(m.vqnan(false, None)));
        chk(c, "snan(None)", f(T::F::snan(None)), m.encode(m.vsnan(false, None)));
        for p in pays {
            c.states += 1;
            c.at(&"qnan/snan", p, 0, 0, 0);
            chk(c, &format!("qnan({p:#x})"), f(T::F::qnan(Some(p))), m.encode(m.vqnan(false, Some(p))));
            chk(c, &format!("snan({p:#x})"), f(T::F::snan(Some(p))), m.encode(m.vsnan(false, Some(p))));
            c.traces += 1;
        }
    });
}

fn main() {
    let k = &mut Check::new("C12");
    let t = k.thorough();
    for_fmts!(constants(k): E5M2, E4M3FN, Half, BFloat, Single, Double, X87, Quad, T6E3, N6E3, T7E4, N7E3, T8E3, T10E5, N10E5);
    spaces!(all_values(k, "bits"; one): T6E3, N6E3, T7E3, N7E3, T7E4, N7E4, E5M2, E4M3FN, T8E3, N8E3, T8E4, T9E4, N9E4, T10E5, N10E5, T11E5, T12E5, T12E6, Half, BFloat);
    spaces!(lat_values(k, "bits", 5000; one): Single, Double, X87, Quad);
    every_exponent::<Single>(k, "bits", cut_sigs(24), one::<Single>);
    every_exponent::<Double>(k, "bits", cut_sigs(53), one::<Double>);
    every_exponent::<X87>(k, "bits", sigs(64, 4), one::<X87>);
    every_exponent::<Quad>(k, "bits", sigs(113, 8), one::<Quad>);
    // unsupported encodings: every exponent, with and without the integer bit
    k.job("x87 unsupported", true, "every exponent x 12 significands with the wrong integer bit", 32768, |i, c| {
        for f in [0u128, 1, 2, 1 << 61, 1 << 62, 1 << 62 | 1, 3 << 61, mask(62), mask(63), 0x5555_5555_5555_5555, 0x2aaa_aaaa_aaaa_aaaa, 1 << 32] {
            let f = if i == 0 { f | 1 << 63 } else { f & mask(63) };
            for s in [0u128, 1] {
                one::<checks::X87>(c, s << 79 | (i as u128) << 64 | f);
            }
        }
    });
    spaces!(all_values(k, "NaN"; nan_only): Half);
    for_fmts!(nan_bits(k): Single, Double, X87, Quad);
    if t {
        spaces!(all_values(k, "bits"; one): Single);
    }
    k.run()
}
fn nan_only<T: Sub>(c: &mut Ctx, a: u128)
where
    T::F: FloatConvert<ieee::Quad>,
{
    if T::M.decode(a).is_nan() {
        one::<T>(c, a)
    }
}
fn nan_bits<T: Sub>(k: &mut Check)
where
    T::F: FloatConvert<ieee::Quad>,
{
    let v = nan_payloads(&T::M);
    k.job(format!("NaN payloads {}", T::M.name), true, format!("{} NaNs", v.len()), 1, move |_, c| {
        for &a in &v {
            one::<T>(c, a)
        }
    });
}
