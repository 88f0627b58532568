//! A field with a small modulus chosen at run time, behind the library's
//! field interface, and curves over it.

use rand::{Rand, Rng};
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::normalize::{Normalize, NormalizeEq};
use safecurves_rust::pack::Pack;
use scharness::access::{assemble, coords};
use scharness::engine::{unit, Ctx, Res, Unit};
use std::cell::Cell;
use std::ops::*;

// ------------------------------------------------------------- tiny field

thread_local! {
    static P: Cell<i64> = Cell::new(3);
    static D: Cell<i64> = Cell::new(2);
    /// State of the generator of unreduced forms; 0 leaves everything reduced.
    static NOISE: Cell<u64> = Cell::new(0);
}

fn md() -> i64 {
    P.with(|p| p.get())
}

fn noise() -> i64 {
    NOISE.with(|n| {
        let mut x = n.get();
        if x == 0 {
            return 0;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        n.set(x);
        ((x >> 40) % 7) as i64 - 3
    })
}

/// Any integer congruent to the element; normal form is [0, p).
#[derive(Clone, Copy)]
struct Tiny(i64);

fn mk(v: i128) -> Tiny {
    let p = md() as i128;
    Tiny((v.rem_euclid(p) + noise() as i128 * p) as i64)
}

impl Tiny {
    fn val(&self) -> i64 {
        self.0.rem_euclid(md())
    }
}

fn powm(a: i64, mut e: i64, p: i64) -> i64 {
    let p = p as i128;
    let mut r = 1i128;
    let mut b = (a as i128).rem_euclid(p);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r as i64
}

fn invm(a: i64, p: i64) -> i64 {
    powm(a, p - 2, p)
}

macro_rules! tiny_op {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl $tr<Tiny> for Tiny {
            type Output = Tiny;
            fn $f(self, o: Tiny) -> Tiny {
                let e: fn(i128, i128) -> i128 = $e;
                mk(e(self.0 as i128, o.0 as i128))
            }
        }
        impl $tra<Tiny> for Tiny {
            fn $fa(&mut self, o: Tiny) {
                *self = $tr::$f(*self, o);
            }
        }
    };
}

macro_rules! tiny_small {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $($k:ty),*) => {$(
        impl $tr<$k> for Tiny {
            type Output = Tiny;
            fn $f(self, o: $k) -> Tiny {
                $tr::$f(self, Tiny(o as i64))
            }
        }
        impl $tra<$k> for Tiny {
            fn $fa(&mut self, o: $k) {
                *self = $tr::$f(*self, Tiny(o as i64));
            }
        }
    )*};
}

tiny_op!(Add, add, AddAssign, add_assign, |a, b| a + b);
tiny_op!(Sub, sub, SubAssign, sub_assign, |a, b| a - b);
tiny_op!(Mul, mul, MulAssign, mul_assign, |a, b| (a % md() as i128) * (b % md() as i128));
tiny_op!(Div, div, DivAssign, div_assign, |a, b| (a % md() as i128) * invm(b.rem_euclid(md() as i128) as i64, md()) as i128);
tiny_small!(Add, add, AddAssign, add_assign, i8, i16, i32);
tiny_small!(Sub, sub, SubAssign, sub_assign, i8, i16, i32);
tiny_small!(Mul, mul, MulAssign, mul_assign, i8, i16, i32);

impl Neg for Tiny {
    type Output = Tiny;
    fn neg(self) -> Tiny {
        mk(-(self.0 as i128))
    }
}

impl Normalize for Tiny {
    fn normalize(&mut self) {
        self.0 = self.val();
    }
}

impl NormalizeEq for Tiny {
    fn normalize_self_eq(&mut self, o: &Tiny) -> bool {
        self.normalize();
        self.0 == o.0
    }
    fn normalize_eq(&mut self, o: &mut Tiny) -> bool {
        o.normalize();
        self.normalize_self_eq(o)
    }
}

impl Pack for Tiny {
    fn unpack(&mut self, b: &[u8]) {
        *self = Tiny::unpacked(b);
    }
    fn unpacked(b: &[u8]) -> Tiny {
        let mut v = 0i64;
        for k in (0..8).rev() {
            v = v << 8 | b[k] as i64;
        }
        Tiny(v)
    }
    fn pack(&mut self, b: &mut [u8]) {
        self.normalize();
        self.pack_normalized(b);
    }
    fn pack_normalized(&self, b: &mut [u8]) {
        for k in 0..8 {
            b[k] = (self.0 >> (8 * k)) as u8;
        }
    }
    fn nbytes() -> i32 {
        8
    }
}

impl Rand for Tiny {
    fn rand<R: Rng>(r: &mut R) -> Tiny {
        Tiny((r.next_u64() % md() as u64) as i64)
    }
}

impl PrimeField for Tiny {
    fn nbits() -> usize {
        64 - md().leading_zeros() as usize
    }
    fn bit(&mut self, i: usize) -> bool {
        self.normalize();
        self.bit_normalized(i)
    }
    fn bit_normalized(&self, i: usize) -> bool {
        // The bits of an element are those below nbits; another may read
        // as anything.
        if i >= Tiny::nbits() {
            return noise() & 1 == 1;
        }
        (self.0 >> i) & 1 == 1
    }
    fn fill(&mut self, bit: bool) {
        self.0 = if bit { -1 } else { 0 };
    }
    fn filled(bit: bool) -> Tiny {
        Tiny(if bit { -1 } else { 0 })
    }
    fn normalize_bitand(&mut self, o: &mut Tiny) {
        o.normalize();
        self.normalize_self_bitand(o);
    }
    fn normalize_self_bitand(&mut self, o: &Tiny) {
        self.normalize();
        self.normalized_bitand(o);
    }
    fn normalized_bitand(&mut self, o: &Tiny) {
        self.0 &= o.0;
    }
    fn normalize_bitor(&mut self, o: &mut Tiny) {
        o.normalize();
        self.normalize_self_bitor(o);
    }
    fn normalize_self_bitor(&mut self, o: &Tiny) {
        self.normalize();
        self.normalized_bitor(o);
    }
    fn normalized_bitor(&mut self, o: &Tiny) {
        self.0 |= o.0;
    }
    fn zero() -> Tiny {
        Tiny(0)
    }
    fn one() -> Tiny {
        Tiny(1)
    }
    fn m_one() -> Tiny {
        Tiny(md() - 1)
    }
    fn modulus() -> Tiny {
        Tiny(md())
    }
    fn square(&mut self) {
        *self = *self * *self;
    }
    fn squared(&self) -> Tiny {
        *self * *self
    }
    fn invert(&mut self) {
        *self = self.inverted();
    }
    fn inverted(&self) -> Tiny {
        mk(invm(self.val(), md()) as i128)
    }
    fn legendre(&self) -> Tiny {
        mk(powm(self.val(), (md() - 1) / 2, md()) as i128)
    }
    fn sqrt(&self) -> Tiny {
        let v = self.val();
        mk((0..md()).find(|r| (*r as i128 * *r as i128 - v as i128) % md() as i128 == 0).unwrap_or(0) as i128)
    }
    fn small_add_assign(&mut self, b: i32) {
        *self += b;
    }
    fn small_add(&self, b: i32) -> Tiny {
        *self + b
    }
    fn small_sub_assign(&mut self, b: i32) {
        *self -= b;
    }
    fn small_sub(&self, b: i32) -> Tiny {
        *self - b
    }
    fn small_mul_assign(&mut self, b: i32) {
        *self *= b;
    }
    fn small_mul(&self, b: i32) -> Tiny {
        *self * b
    }
}

#[derive(Clone, Copy)]
struct TinyCurve;

impl EdwardsCurve for TinyCurve {
    type Scalar = Tiny;
    fn d_val() -> Tiny {
        mk(D.with(|d| d.get()) as i128)
    }
}

type Tp = EdwardsExtended<TinyCurve>;

// -------------------------------------------------- affine law, tiny field

#[derive(Clone, Copy)]
struct Cfg {
    p: i64,
    d: i64,
}

type Aff = (i64, i64);

impl Cfg {
    fn enter(&self, noise: u64) {
        P.with(|x| x.set(self.p));
        D.with(|x| x.set(self.d));
        NOISE.with(|x| x.set(noise));
    }

    fn m(&self, a: i64, b: i64) -> i64 {
        (a as i128 * b as i128).rem_euclid(self.p as i128) as i64
    }

    fn add(&self, a: Aff, b: Aff) -> Aff {
        let p = self.p;
        let e = self.m(self.d, self.m(self.m(a.0, b.0), self.m(a.1, b.1)));
        let x = self.m((self.m(a.0, b.1) + self.m(a.1, b.0)) % p, invm(1 + e, p));
        let y = self.m(self.m(a.1, b.1) - self.m(a.0, b.0) + p, invm(1 - e, p));
        (x, y)
    }

    fn mul(&self, k: i64, a: Aff) -> Aff {
        let mut r = (0, 1 % self.p);
        for i in (0..63).rev() {
            r = self.add(r, r);
            if (k >> i) & 1 == 1 {
                r = self.add(r, a);
            }
        }
        r
    }

    fn on(&self, a: Aff) -> bool {
        let (xx, yy) = (self.m(a.0, a.0), self.m(a.1, a.1));
        (xx + yy - 1 - self.m(self.d, self.m(xx, yy))).rem_euclid(self.p) == 0
    }

    fn points(&self) -> Vec<Aff> {
        let mut v = Vec::new();
        for x in 0..self.p {
            for y in 0..self.p {
                if self.on((x, y)) {
                    v.push((x, y));
                }
            }
        }
        v
    }

    /// The affine point the library holds, checked for validity.
    fn read(&self, what: &str, t: &Tp) -> Result<Aff, String> {
        let (x, y, z, t) = coords(t);
        let (x, y, z, t) = (x.val(), y.val(), z.val(), t.val());
        if z == 0 {
            return Err(format!("{}: Z is 0", what));
        }
        if self.m(x, y) != self.m(z, t) {
            return Err(format!("{}: X Y differs from Z T ({}, {}, {}, {})", what, x, y, z, t));
        }
        let zi = invm(z, self.p);
        Ok((self.m(x, zi), self.m(y, zi)))
    }

    fn want(&self, what: &str, t: &Tp, w: Aff) -> Res {
        let a = self.read(what, t)?;
        if a != w {
            return Err(format!("p = {}, d = {}: {}: got {:?}, expected {:?}", self.p, self.d, what, a, w));
        }
        Ok(())
    }

    fn form(&self, a: Aff, l: i64) -> Tp {
        let t = self.m(a.0, a.1);
        let (x, y) = (mk(self.m(a.0, l) as i128), mk(self.m(a.1, l) as i128));
        assemble(x, y, mk(l as i128), mk(self.m(t, l) as i128)).unwrap_or_else(|| {
            let mut q = Tp::zero();
            q.init(mk(a.0 as i128), mk(a.1 as i128));
            q
        })
    }
}

fn is_prime(n: i64) -> bool {
    n > 1 && (2..).take_while(|k| k * k <= n).all(|k| n % k != 0)
}

fn non_squares(p: i64) -> Vec<i64> {
    (2..p).filter(|d| powm(*d, (p - 1) / 2, p) == p - 1).collect()
}

/// Everything about one small curve: all points, all pairs, all scalars.
fn whole(c: &mut Ctx, g: Cfg) -> Res {
    let noise = c.draw(0);
    g.enter(noise);
    c.key(&(g.p, g.d, noise));
    c.nontrivial = true;
    let pts = g.points();
    c.say(|| format!("all of the curve with p = {}, d = {} ({} points), form seed {:x}", g.p, g.d, pts.len(), noise));
    let scale = |c: &mut Ctx| 1 + c.draw(g.p as u64 - 1) as i64;
    g.want("O", &Tp::zero(), (0, 1))?;
    for a in &pts {
        let mut q = g.form(pts[c.below(pts.len())], scale(c));
        q.init(mk(a.0 as i128), mk(a.1 as i128));
        g.want(&format!("init {:?}", a), &q, *a)?;
        let two = g.add(*a, *a);
        let three = g.add(two, *a);
        for f in [q, g.form(*a, scale(c))] {
            g.want(&format!("2 {:?}", a), &f.doubled(), two)?;
            g.want(&format!("3 {:?}", a), &f.tripled(), three)?;
            let mut h = f;
            h.double();
            g.want(&format!("double {:?}", a), &h, two)?;
            let mut h = f;
            h.triple();
            g.want(&format!("triple {:?}", a), &h, three)?;
            g.want(&format!("{:?} + O", a), &(f + Tp::zero()), *a)?;
        }
        for b in &pts {
            let s = g.add(*a, *b);
            let f = g.form(*b, scale(c));
            g.want(&format!("{:?} + {:?}", a, b), &(q + f), s)?;
            let mut h = f;
            h += &q;
            g.want(&format!("{:?} += {:?}", b, a), &h, s)?;
        }
        let f = g.form(*a, scale(c));
        let mut w = (0, 1);
        for k in 0..g.p {
            let mut h = f;
            let mut s = mk(k as i128);
            h.scalar_mult(&mut s);
            g.want(&format!("{} * {:?}", k, a), &h, w)?;
            if s.val() != k {
                return Err(format!("the scalar {} became {}", k, s.val()));
            }
            let mut h = q;
            h.scalar_mult_normalized(&Tiny(k));
            g.want(&format!("{} * {:?} (normalized)", k, a), &h, w)?;
            w = g.add(w, *a);
        }
    }
    Ok(())
}

/// Random operations on a random curve over a random prime below 2^31.
fn sampled(c: &mut Ctx) -> Res {
    let bits = 7 + c.below(24);
    let mut p = ((1i64 << bits) | c.draw(1 << bits) as i64) | 1;
    while !is_prime(p) {
        p += 2;
    }
    // d from a point, so that no square root is needed
    // y = 0 and y = +-1 give no d at all or d = 1.
    let (mut x, mut y) = (c.draw(p as u64) as i64, 2 + c.draw(p as u64 - 3) as i64);
    let d = loop {
        let g = Cfg { p, d: 0 };
        let (xx, yy) = (g.m(x, x), g.m(y, y));
        let den = g.m(xx, yy);
        if den != 0 {
            let d = g.m((xx + yy - 1 + p) % p, invm(den, p));
            if d > 1 && powm(d, (p - 1) / 2, p) == p - 1 {
                break d;
            }
        }
        x = (x + 1) % p;
        if x == 0 {
            y = 2 + (y - 1) % (p - 3);
        }
    };
    let g = Cfg { p, d };
    let noise = c.draw(0);
    g.enter(noise);
    c.key(&(p, d, x, y, noise));
    c.nontrivial = true;
    c.label(if p % 4 == 1 { "p = 1 mod 4" } else { "p = 3 mod 4" });
    let base = (x, y);
    c.say(|| format!("p = {}, d = {}, base ({}, {}), form seed {:x}", p, d, x, y, noise));
    let small = [(0, 1), (0, p - 1), (1, 0), (p - 1, 0)];
    let mut pick = |c: &mut Ctx| {
        let k = c.draw(p as u64) as i64;
        let mut a = g.mul(k, base);
        if c.chance(1, 4) {
            a = g.add(a, small[c.below(4)]);
        }
        if c.chance(1, 8) {
            a = small[c.below(4)];
        }
        let l = 1 + c.draw(p as u64 - 1) as i64;
        (a, g.form(a, l))
    };
    let (a, fa) = pick(c);
    let (mut b, mut fb) = pick(c);
    match c.below(5) {
        0 => {
            b = a;
            fb = g.form(a, 1 + c.draw(p as u64 - 1) as i64);
        }
        1 => {
            b = ((p - a.0) % p, a.1);
            fb = g.form(b, 1 + c.draw(p as u64 - 1) as i64);
        }
        _ => {}
    }
    let k = if c.flag() { c.draw(p as u64) as i64 } else { p - 1 - c.draw(20) as i64 };
    c.say(|| format!("P = {:?}, Q = {:?}, k = {}", a, b, k));
    g.want("P + Q", &(fa + fb), g.add(a, b))?;
    g.want("2P", &fa.doubled(), g.add(a, a))?;
    g.want("3P", &fa.tripled(), g.add(g.add(a, a), a))?;
    let mut h = fb;
    h.init(mk(a.0 as i128), mk(a.1 as i128));
    g.want("init", &h, a)?;
    let mut h = fa;
    h.scalar_mult(&mut mk(k as i128));
    g.want("kP", &h, g.mul(k, a))?;
    h += fb;
    g.want("kP + Q", &h, g.add(g.mul(k, a), b))
}

pub fn units(u: &mut Vec<Unit>, s: usize) {
    let last = if s > 1 { 101 } else { 61 };
    for p in (3..=last).filter(|p| is_prime(*p)) {
        for d in non_squares(p) {
            let g = Cfg { p, d };
            u.push(unit(format!("all/p={},d={}", p, d), 2, 3000, move |c| whole(c, g)));
        }
    }
    u.push(unit("all/p<=251".to_string(), 80 * s, 20_000, |c| {
        let ps: Vec<i64> = (67..=251).filter(|p| is_prime(*p)).collect();
        let p = ps[c.below(ps.len())];
        let ds = non_squares(p);
        let d = ds[c.below(ds.len())];
        whole(c, Cfg { p, d })
    }));
    u.push(unit("sampled/p<2^31".to_string(), 100_000 * s, 400, sampled));
}
