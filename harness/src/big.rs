//! Reference integers: plain little-endian base-2^64 naturals, schoolbook
//! arithmetic, nothing shared with the code under test.

pub const L: usize = 20; // 1280 bits: any product of two 522-bit numbers, with room

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Big(pub [u64; L]);

impl Default for Big {
    fn default() -> Self {
        Big([0; L])
    }
}

impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "0x{}", self.hex())
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Big {
    fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        for i in (0..L).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
}

impl Big {
    pub const ZERO: Big = Big([0; L]);

    pub fn from_u64(v: u64) -> Big {
        let mut b = Big::ZERO;
        b.0[0] = v;
        b
    }

    pub fn pow2(k: usize) -> Big {
        let mut b = Big::ZERO;
        b.0[k / 64] = 1u64 << (k % 64);
        b
    }

    pub fn from_hex(s: &str) -> Big {
        let mut b = Big::ZERO;
        for ch in s.trim_start_matches("0x").chars().filter(|c| *c != '_') {
            b = b.shl(4);
            b.0[0] |= ch.to_digit(16).expect("hex digit") as u64;
        }
        b
    }

    pub fn from_dec(s: &str) -> Big {
        let mut b = Big::ZERO;
        for ch in s.chars() {
            b = b.mul_u64(10).add(&Big::from_u64(ch.to_digit(10).expect("digit") as u64));
        }
        b
    }

    pub fn from_le(bytes: &[u8]) -> Big {
        let mut b = Big::ZERO;
        for (i, x) in bytes.iter().enumerate() {
            b.0[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        b
    }

    pub fn to_le(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| (self.0[i / 8] >> (8 * (i % 8))) as u8).collect()
    }

    pub fn hex(&self) -> String {
        let mut s = String::new();
        for i in (0..L).rev() {
            s.push_str(&format!("{:016x}", self.0[i]));
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() { "0".to_string() } else { t.to_string() }
    }

    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }

    pub fn bit(&self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }

    pub fn bits(&self) -> usize {
        for i in (0..L).rev() {
            if self.0[i] != 0 {
                return i * 64 + 64 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }

    pub fn add(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        let mut c = 0u128;
        for i in 0..L {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r.0[i] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0, "reference integer overflow in add");
        r
    }

    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        let mut borrow = false;
        for i in 0..L {
            let (t, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (t, b2) = t.overflowing_sub(borrow as u64);
            r.0[i] = t;
            borrow = b1 || b2;
        }
        assert!(!borrow, "reference integer underflow in sub");
        r
    }

    pub fn mul(&self, o: &Big) -> Big {
        let la = (self.bits() + 63) / 64;
        let lb = (o.bits() + 63) / 64;
        assert!(la + lb <= L, "reference integer overflow in mul");
        let mut r = Big::ZERO;
        for i in 0..la {
            let mut c = 0u128;
            for j in 0..lb {
                let t = self.0[i] as u128 * o.0[j] as u128 + r.0[i + j] as u128 + c;
                r.0[i + j] = t as u64;
                c = t >> 64;
            }
            if i + lb < L {
                r.0[i + lb] = c as u64;
            }
        }
        r
    }

    pub fn mul_u64(&self, m: u64) -> Big {
        let mut r = Big::ZERO;
        let mut c = 0u128;
        for i in 0..L {
            let t = self.0[i] as u128 * m as u128 + c;
            r.0[i] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0, "reference integer overflow in mul_u64");
        r
    }

    pub fn shl(&self, k: usize) -> Big {
        let mut r = Big::ZERO;
        let (w, b) = (k / 64, k % 64);
        for i in (w..L).rev() {
            r.0[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                r.0[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        r
    }

    pub fn shr(&self, k: usize) -> Big {
        let mut r = Big::ZERO;
        let (w, b) = (k / 64, k % 64);
        for i in 0..L - w {
            r.0[i] = self.0[i + w] >> b;
            if b > 0 && i + w + 1 < L {
                r.0[i] |= self.0[i + w + 1] << (64 - b);
            }
        }
        r
    }

    pub fn low(&self, k: usize) -> Big {
        let mut r = *self;
        for i in 0..L {
            if i * 64 >= k {
                r.0[i] = 0;
            } else if k - i * 64 < 64 {
                r.0[i] &= (1u64 << (k - i * 64)) - 1;
            }
        }
        r
    }

    pub fn and(&self, o: &Big) -> Big {
        let mut r = *self;
        for i in 0..L {
            r.0[i] &= o.0[i];
        }
        r
    }

    pub fn or(&self, o: &Big) -> Big {
        let mut r = *self;
        for i in 0..L {
            r.0[i] |= o.0[i];
        }
        r
    }

    /// Binary long division: the slow, obviously right remainder.
    pub fn rem_slow(&self, m: &Big) -> Big {
        let mut r = Big::ZERO;
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            r.0[0] |= self.bit(i) as u64;
            if r >= *m {
                r = r.sub(m);
            }
        }
        r
    }
}

impl Big {
    /// self / m, rounded down, by binary long division.
    pub fn div_slow(&self, m: &Big) -> Big {
        let mut r = Big::ZERO;
        let mut q = Big::ZERO;
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            r.0[0] |= self.bit(i) as u64;
            if r >= *m {
                r = r.sub(m);
                q = q.or(&Big::pow2(i));
            }
        }
        q
    }

    /// The inverse of an odd number modulo 2^n.
    pub fn inv_2adic(&self, n: usize) -> Big {
        assert!(self.bit(0));
        let mut x = Big::from_u64(1);
        let mut k = 1;
        while k < n {
            k = n.min(2 * k);
            // x (2 - a x)
            let ax = self.low(k).mul(&x).low(k);
            let two = Big::pow2(k).add(&Big::from_u64(2));
            x = x.mul(&two.sub(&ax).low(k)).low(k);
        }
        x.low(n)
    }

    /// A square root modulo 2^n of a number that is 1 modulo 8.
    pub fn sqrt_2adic(&self, n: usize) -> Big {
        assert!(self.0[0] & 7 == 1);
        let mut x = Big::from_u64(1);
        for k in 3..n {
            if x.mul(&x).bit(k) != self.bit(k) {
                x = x.add(&Big::pow2(k - 1));
            }
        }
        x.low(n)
    }

    /// The square root of a number, rounded down.
    pub fn isqrt(&self) -> Big {
        let mut x = Big::ZERO;
        for k in (0..self.bits() / 2 + 1).rev() {
            let y = x.or(&Big::pow2(k));
            if y.mul(&y) <= *self {
                x = y;
            }
        }
        x
    }
}

/// The integers modulo p = 2^n - c.
#[derive(Clone, Copy)]
pub struct Modp {
    pub n: usize,
    pub c: u64,
    pub p: Big,
}

impl Modp {
    pub fn new(n: usize, c: u64) -> Modp {
        Modp { n, c, p: Big::pow2(n).sub(&Big::from_u64(c)) }
    }

    /// x mod p, folding the part above 2^n by 2^n = c.
    pub fn red(&self, x: &Big) -> Big {
        let mut x = *x;
        while x.bits() > self.n {
            x = x.low(self.n).add(&x.shr(self.n).mul_u64(self.c));
        }
        if x >= self.p {
            x = x.sub(&self.p);
        }
        x
    }

    pub fn add(&self, a: &Big, b: &Big) -> Big {
        self.red(&a.add(b))
    }

    pub fn sub(&self, a: &Big, b: &Big) -> Big {
        self.red(&a.add(&self.p).sub(b))
    }

    pub fn neg(&self, a: &Big) -> Big {
        self.sub(&Big::ZERO, a)
    }

    pub fn mul(&self, a: &Big, b: &Big) -> Big {
        self.red(&a.mul(b))
    }

    pub fn int(&self, v: i64) -> Big {
        let m = self.red(&Big::from_u64(v.unsigned_abs()));
        if v < 0 { self.neg(&m) } else { m }
    }

    pub fn pow(&self, a: &Big, e: &Big) -> Big {
        let mut r = Big::from_u64(1);
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }

    /// Inverse of a non-zero a, by the binary extended Euclidean algorithm.
    pub fn inv(&self, a: &Big) -> Big {
        assert!(!a.is_zero());
        let one = Big::from_u64(1);
        let (mut u, mut v) = (*a, self.p);
        let (mut x1, mut x2) = (one, Big::ZERO);
        let half = |x: &Big| if x.bit(0) { x.add(&self.p).shr(1) } else { x.shr(1) };
        while u != one && v != one {
            while !u.bit(0) {
                u = u.shr(1);
                x1 = half(&x1);
            }
            while !v.bit(0) {
                v = v.shr(1);
                x2 = half(&x2);
            }
            if u >= v {
                u = u.sub(&v);
                x1 = self.sub(&x1, &x2);
            } else {
                v = v.sub(&u);
                x2 = self.sub(&x2, &x1);
            }
        }
        if u == one { x1 } else { x2 }
    }

    /// Jacobi symbol (a/p) by quadratic reciprocity (no powering).
    pub fn jacobi(&self, a: &Big) -> i32 {
        let mut a = *a;
        let mut n = self.p;
        let mut t = 1;
        while !a.is_zero() {
            while !a.bit(0) {
                a = a.shr(1);
                let r = n.0[0] & 7;
                if r == 3 || r == 5 {
                    t = -t;
                }
            }
            if a < n {
                std::mem::swap(&mut a, &mut n);
                if a.0[0] & 3 == 3 && n.0[0] & 3 == 3 {
                    t = -t;
                }
            }
            a = a.sub(&n);
        }
        if n == Big::from_u64(1) { t } else { 0 }
    }

    /// A square root of a (a residue), for p = 3 mod 4.
    pub fn sqrt34(&self, a: &Big) -> Big {
        assert!(self.p.0[0] & 3 == 3);
        let e = self.p.add(&Big::from_u64(1)).shr(2);
        self.pow(a, &e)
    }
}
