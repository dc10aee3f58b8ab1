//! Schoolbook unsigned big integers (little-endian u64 limbs, no trailing zero limb).

use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Big(pub Vec<u64>);

impl Big {
    pub fn from(mut x: u128) -> Big {
        let mut v = vec![];
        while x != 0 {
            v.push(x as u64);
            x >>= 64;
        }
        Big(v)
    }
    fn trim(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn blen(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 64 - t.leading_zeros() as usize,
        }
    }
    pub fn mul_add_small(&mut self, m: u64, a: u64) {
        let mut c = a as u128;
        for x in &mut self.0 {
            let t = *x as u128 * m as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        if c != 0 {
            self.0.push(c as u64);
        }
    }
    /// In-place division, returns the remainder.
    pub fn div_small(&mut self, d: u64) -> u64 {
        let mut r = 0u128;
        for x in self.0.iter_mut().rev() {
            let t = r << 64 | *x as u128;
            let q = (t / d as u128) as u64;
            *x = q;
            r = t - q as u128 * d as u128;
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        r as u64
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u64; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u128 * b as u128 + v[i + j] as u128 + c;
                v[i + j] = t as u64;
                c = t >> 64;
            }
            v[i + o.0.len()] = c as u64;
        }
        Big(v).trim()
    }
    pub fn shl(&self, n: usize) -> Big {
        if self.is_zero() {
            return Big::default();
        }
        let (w, b) = (n / 64, n % 64);
        let mut v = vec![0u64; w];
        let mut c = 0u64;
        for &x in &self.0 {
            if b == 0 {
                v.push(x);
            } else {
                v.push(x << b | c);
                c = x >> (64 - b);
            }
        }
        v.push(c);
        Big(v).trim()
    }
    pub fn shr(&self, n: usize) -> Big {
        let (w, b) = (n / 64, n % 64);
        let mut v = vec![];
        for i in w..self.0.len() {
            let lo = self.0[i] >> b;
            let hi = if b > 0 && i + 1 < self.0.len() { self.0[i + 1] << (64 - b) } else { 0 };
            v.push(lo | hi);
        }
        Big(v).trim()
    }
    /// Are any of the low n bits set?
    pub fn low_nonzero(&self, n: usize) -> bool {
        for (i, &x) in self.0.iter().enumerate() {
            if i * 64 >= n {
                return false;
            }
            let k = n - i * 64;
            if (if k >= 64 { x } else { x & ((1 << k) - 1) }) != 0 {
                return true;
            }
        }
        false
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn sub_assign(&mut self, o: &Big) {
        let mut bor = 0i128;
        for i in 0..self.0.len() {
            let t = self.0[i] as i128 - *o.0.get(i).unwrap_or(&0) as i128 + bor;
            self.0[i] = t as u64;
            bor = t >> 64;
        }
        assert!(bor == 0);
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut v = vec![];
        let mut c = 0u128;
        for i in 0..self.0.len().max(o.0.len()) {
            let t = *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128 + c;
            v.push(t as u64);
            c = t >> 64;
        }
        v.push(c as u64);
        Big(v).trim()
    }
    pub fn to_u128(&self) -> u128 {
        assert!(self.0.len() <= 2);
        *self.0.first().unwrap_or(&0) as u128 | (*self.0.get(1).unwrap_or(&0) as u128) << 64
    }
    /// The top (at most 127) bits: self = (m + s) * 2^e with 0 <= s < 1, sticky iff s != 0.
    pub fn top(&self) -> (u128, i32, bool) {
        let b = self.blen();
        if b <= 127 {
            (self.to_u128(), 0, false)
        } else {
            let n = b - 127;
            (self.shr(n).to_u128(), n as i32, self.low_nonzero(n))
        }
    }
    /// self / d as (m + s) * 2^e with m of 126 or 127 bits.
    pub fn div_top(&self, d: &Big) -> (u128, i32, bool) {
        assert!(!d.is_zero() && !self.is_zero());
        // scale so that 2^126 < n/d < 2^128
        let k = 127 + d.blen() as i64 - self.blen() as i64; // n * 2^k / d in (2^126, 2^128)
        let (mut r, d) = if k >= 0 { (self.shl(k as usize), d.clone()) } else { (self.clone(), d.shl((-k) as usize)) };
        let mut q = 0u128;
        let mut dd = d.shl(127);
        for _ in 0..128 {
            q <<= 1;
            if r.cmp(&dd) != Ordering::Less {
                r.sub_assign(&dd);
                q |= 1;
            }
            // halve the divisor
            dd = dd.shr(1);
        }
        let mut sticky = !r.is_zero();
        let mut e = -k;
        if q >> 127 != 0 {
            sticky |= q & 1 != 0;
            q >>= 1;
            e += 1;
        }
        (q, e as i32, sticky)
    }
    pub fn pow5(n: usize) -> Big {
        let mut r = Big::from(1);
        let mut k = n;
        while k >= 27 {
            r.mul_add_small(7450580596923828125, 0); // 5^27
            k -= 27;
        }
        r.mul_add_small(5u64.pow(k as u32), 0);
        r
    }
    /// Decimal digits, most significant first; "" for zero.
    pub fn to_dec(&self) -> Vec<u8> {
        let mut parts = vec![];
        let mut x = self.clone();
        while !x.is_zero() {
            parts.push(x.div_small(10_000_000_000_000_000_000));
        }
        let mut s = vec![];
        for (i, p) in parts.iter().rev().enumerate() {
            s.extend(if i == 0 { format!("{}", p) } else { format!("{:019}", p) }.bytes());
        }
        s
    }
    pub fn from_dec(digits: &[u8]) -> Big {
        let mut r = Big::default();
        for ch in digits.chunks(18) {
            let mut v = 0;
            for &d in ch {
                v = v * 10 + (d - b'0') as u64;
            }
            r.mul_add_small(10u64.pow(ch.len() as u32), v);
        }
        r.trim()
    }
}
