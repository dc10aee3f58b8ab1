//! 256-bit unsigned integers, just enough for exact products and sums.

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct W {
    pub hi: u128,
    pub lo: u128,
}
impl W {
    pub const ZERO: W = W { hi: 0, lo: 0 };
    pub fn from(lo: u128) -> W {
        W { hi: 0, lo }
    }
    pub fn is_zero(self) -> bool {
        self.hi == 0 && self.lo == 0
    }
    pub fn blen(self) -> i32 {
        if self.hi != 0 {
            256 - self.hi.leading_zeros() as i32
        } else {
            128 - self.lo.leading_zeros() as i32
        }
    }
    /// Panics if bits are shifted out.
    pub fn shl(self, n: u32) -> W {
        if self.is_zero() {
            return self;
        }
        assert!(self.blen() as u32 + n <= 256);
        if n == 0 {
            self
        } else if n >= 128 {
            W { hi: self.lo << (n - 128), lo: 0 }
        } else {
            W { hi: self.hi << n | self.lo >> (128 - n), lo: self.lo << n }
        }
    }
    /// Shift right; the flag tells whether a non-zero bit was lost.
    pub fn shr_sticky(self, n: u32) -> (W, bool) {
        if n == 0 {
            (self, false)
        } else if n >= 256 {
            (W::ZERO, !self.is_zero())
        } else if n >= 128 {
            let k = n - 128;
            let lost = self.lo != 0 || k > 0 && self.hi & ((1 << k) - 1) != 0;
            (W { hi: 0, lo: self.hi >> k }, lost)
        } else {
            let lost = self.lo & ((1 << n) - 1) != 0;
            (W { hi: self.hi >> n, lo: self.lo >> n | self.hi << (128 - n) }, lost)
        }
    }
    pub fn add(self, o: W) -> W {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        W { hi: self.hi + o.hi + c as u128, lo }
    }
    pub fn sub(self, o: W) -> W {
        let (lo, c) = self.lo.overflowing_sub(o.lo);
        W { hi: self.hi - o.hi - c as u128, lo }
    }
    pub fn gt(self, o: W) -> bool {
        (self.hi, self.lo) > (o.hi, o.lo)
    }
    pub fn mul(a: u128, b: u128) -> W {
        let m = (1u128 << 64) - 1;
        let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
        let mut r = W { hi: a1 * b1, lo: a0 * b0 };
        for x in [a1 * b0, a0 * b1] {
            r = r.add(W { hi: x >> 64, lo: x << 64 });
        }
        r
    }
    /// Quotient and remainder by a divisor below 2^127 (bit by bit).
    pub fn divrem(self, d: u128) -> (W, u128) {
        assert!(d != 0 && d >> 127 == 0);
        let mut q = W::ZERO;
        let mut r = 0u128;
        for i in (0..self.blen()).rev() {
            let bit = if i >= 128 { self.hi >> (i - 128) } else { self.lo >> i } & 1;
            r = r << 1 | bit;
            if r >= d {
                r -= d;
                if i >= 128 {
                    q.hi |= 1 << (i - 128);
                } else {
                    q.lo |= 1 << i;
                }
            }
        }
        (q, r)
    }
}
