//! The nine fields under test, seen through their public API, and the
//! generator of elements in every reachable representation.

use crate::big::{Big, Modp};
use crate::engine::Ctx;
use std::fmt::{Debug, LowerHex, UpperHex};

pub use safecurves_rust::field::prime_field::{PrimeField, PrimeFieldMask};
pub use safecurves_rust::normalize::{Normalize, NormalizeEq};
pub use safecurves_rust::pack::Pack;

pub use safecurves_rust::field::mod_e221_3 as m221;
pub use safecurves_rust::field::mod_e222_117 as m222;
pub use safecurves_rust::field::mod_e251_9 as m251;
pub use safecurves_rust::field::mod_e255_19 as m255;
pub use safecurves_rust::field::mod_e382_105 as m382;
pub use safecurves_rust::field::mod_e383_187 as m383;
pub use safecurves_rust::field::mod_e414_17 as m414;
pub use safecurves_rust::field::mod_e511_187 as m511;
pub use safecurves_rust::field::mod_e521_1 as m521;

/// Facts about a field that come from its name and documentation.
#[derive(Clone, Copy)]
pub struct Info {
    pub name: &'static str,
    pub m: Modp,
    pub nbytes: usize,
    /// Bits in one stored word (two digits); only steers the generator.
    pub word: usize,
}

pub trait Fld: PrimeField + Copy + Debug + LowerHex + UpperHex + Send + Sync + 'static {
    type Mask: PrimeFieldMask + Copy;
    fn info() -> Info;
    fn packed_vec(&mut self) -> Vec<u8>;
    /// The published constants ZERO, ONE, M_ONE, MODULUS.
    fn consts() -> [Self; 4];
    /// Every overload of the operators, as (description, result) pairs.
    fn binary_forms(a: &Self, b: &Self) -> Vec<(&'static str, char, Self)>;
    fn digit_forms(a: &Self, k: i32) -> Vec<(&'static str, char, Self)>;
    fn div_forms(a: &Self, b: &Self) -> Vec<(&'static str, char, Self)>;
    /// The published -1/2, where there is one.
    fn m_half() -> Option<Self>;
}

macro_rules! fld {
    ($t:path, $mask:path, $m:ident, $name:expr, $n:expr, $c:expr, $nb:expr, $w:expr, $half:expr) => {
        impl Fld for $t {
            type Mask = $mask;

            fn info() -> Info {
                Info { name: $name, m: Modp::new($n, $c), nbytes: $nb, word: $w }
            }

            fn packed_vec(&mut self) -> Vec<u8> {
                self.packed().to_vec()
            }

            fn consts() -> [Self; 4] {
                [$m::ZERO, $m::ONE, $m::M_ONE, $m::MODULUS]
            }

            fn m_half() -> Option<Self> {
                $half
            }

            fn div_forms(a: &Self, b: &Self) -> Vec<(&'static str, char, Self)> {
                let mut v = Vec::new();
                let (x, y) = (*a, *b);
                v.push(("x / y", '/', x / y));
                v.push(("&x / &y", '/', a / b));
                let mut z = x; z /= y; v.push(("x /= y", '/', z));
                let mut z = x; z /= b; v.push(("x /= &y", '/', z));
                v.push(("x * y.inverted()", '/', x * b.inverted()));
                let mut z = y; z.invert(); z *= x; v.push(("y.invert(); y *= x", '/', z));
                v
            }

            fn binary_forms(a: &Self, b: &Self) -> Vec<(&'static str, char, Self)> {
                let mut v = Vec::new();
                let (x, y) = (*a, *b);
                v.push(("x + y", '+', x + y));
                v.push(("&x + &y", '+', a + b));
                let mut z = x; z += y; v.push(("x += y", '+', z));
                let mut z = x; z += b; v.push(("x += &y", '+', z));
                v.push(("x - y", '-', x - y));
                v.push(("&x - &y", '-', a - b));
                let mut z = x; z -= y; v.push(("x -= y", '-', z));
                let mut z = x; z -= b; v.push(("x -= &y", '-', z));
                v.push(("x * y", '*', x * y));
                v.push(("&x * &y", '*', a * b));
                let mut z = x; z *= y; v.push(("x *= y", '*', z));
                let mut z = x; z *= b; v.push(("x *= &y", '*', z));
                v
            }

            fn digit_forms(a: &Self, k: i32) -> Vec<(&'static str, char, Self)> {
                let mut v = Vec::new();
                let x = *a;
                macro_rules! forms {
                    ($k:expr, $d:expr) => {
                        v.push((concat!("x + ", $d), '+', x + $k));
                        v.push((concat!("&x + ", $d), '+', a + $k));
                        v.push((concat!($d, " + &x"), '+', $k + a));
                        let mut z = x; z += $k; v.push((concat!("x += ", $d), '+', z));
                        v.push((concat!("x - ", $d), '-', x - $k));
                        v.push((concat!("&x - ", $d), '-', a - $k));
                        let mut z = x; z -= $k; v.push((concat!("x -= ", $d), '-', z));
                        v.push((concat!("x * ", $d), '*', x * $k));
                        v.push((concat!("&x * ", $d), '*', a * $k));
                        v.push((concat!($d, " * &x"), '*', $k * a));
                        let mut z = x; z *= $k; v.push((concat!("x *= ", $d), '*', z));
                    };
                }
                forms!(k, "i32");
                if k >= i16::MIN as i32 && k <= i16::MAX as i32 {
                    let k16 = k as i16;
                    forms!(k16, "i16");
                }
                if k >= i8::MIN as i32 && k <= i8::MAX as i32 {
                    let k8 = k as i8;
                    forms!(k8, "i8");
                }
                v.push(("small_add", '+', x.small_add(k)));
                let mut z = x; z.small_add_assign(k); v.push(("small_add_assign", '+', z));
                v.push(("small_sub", '-', x.small_sub(k)));
                let mut z = x; z.small_sub_assign(k); v.push(("small_sub_assign", '-', z));
                v.push(("small_mul", '*', x.small_mul(k)));
                let mut z = x; z.small_mul_assign(k); v.push(("small_mul_assign", '*', z));
                v
            }
        }
    };
}

fld!(m221::Mod_e221_3, m221::Mod_e221_3_Mask, m221, "mod_e221_3", 221, 3, 28, 58, Some(m221::M_HALF));
fld!(m222::Mod_e222_117, m222::Mod_e222_117_Mask, m222, "mod_e222_117", 222, 117, 28, 58, None);
fld!(m251::Mod_e251_9, m251::Mod_e251_9_Mask, m251, "mod_e251_9", 251, 9, 32, 56, None);
fld!(m255::Mod_e255_19, m255::Mod_e255_19_Mask, m255, "mod_e255_19", 255, 19, 32, 56, Some(m255::M_HALF));
fld!(m382::Mod_e382_105, m382::Mod_e382_105_Mask, m382, "mod_e382_105", 382, 105, 48, 56, None);
fld!(m383::Mod_e383_187, m383::Mod_e383_187_Mask, m383, "mod_e383_187", 383, 187, 48, 56, Some(m383::M_HALF));
fld!(m414::Mod_e414_17, m414::Mod_e414_17_Mask, m414, "mod_e414_17", 414, 17, 52, 56, None);
fld!(m511::Mod_e511_187, m511::Mod_e511_187_Mask, m511, "mod_e511_187", 511, 187, 64, 54, Some(m511::M_HALF));
fld!(m521::Mod_e521_1, m521::Mod_e521_1_Mask, m521, "mod_e521_1", 521, 1, 66, 54, None);

/// Call `$f::<F>($args)` for every field.
#[macro_export]
macro_rules! each_field {
    ($f:ident ( $($a:expr),* )) => {{
        use $crate::field::*;
        $f::<m221::Mod_e221_3>($($a),*);
        $f::<m222::Mod_e222_117>($($a),*);
        $f::<m251::Mod_e251_9>($($a),*);
        $f::<m255::Mod_e255_19>($($a),*);
        $f::<m382::Mod_e382_105>($($a),*);
        $f::<m383::Mod_e383_187>($($a),*);
        $f::<m414::Mod_e414_17>($($a),*);
        $f::<m511::Mod_e511_187>($($a),*);
        $f::<m521::Mod_e521_1>($($a),*);
    }};
}

// ------------------------------------------------------------ observation

/// The integer an element stands for, read off a copy through `pack`.
/// An error if the packed bytes are not the canonical encoding of anything.
pub fn value<F: Fld>(x: &F) -> Result<Big, String> {
    let i = F::info();
    let mut c = *x;
    let mut buf = [0xa5u8; 80];
    c.pack(&mut buf[..i.nbytes]);
    let v = Big::from_le(&buf[..i.nbytes]);
    if v >= i.m.p {
        return Err(format!("packs to {:?}, which is not below the modulus", v));
    }
    Ok(v)
}

/// An element known to stand for the reduced integer `v`.
pub fn elem<F: Fld>(v: &Big) -> F {
    F::unpacked(&v.to_le(F::info().nbytes))
}

pub fn expect<F: Fld>(what: &str, got: &F, want: &Big) -> Result<(), String> {
    let v = value(got).map_err(|e| format!("{}: {} (expected {:?})", what, e, want))?;
    if v != *want {
        return Err(format!("{}: got {:?}, expected {:?}", what, v, want));
    }
    Ok(())
}

// ------------------------------------------------------------- generators

/// A reduced integer, biased to the shapes limb arithmetic finds hard.
pub fn gen_value(c: &mut Ctx, i: &Info) -> Big {
    let m = &i.m;
    let n = m.n;
    let one = Big::from_u64(1);
    if let Some(v) = gen_literal(c, i) {
        return v;
    }
    let v = match c.below(14) {
        0 => Big::from_u64(c.draw(4 * m.c + 300)),
        1 => m.p.sub(&one).sub(&Big::from_u64(c.draw(4 * m.c + 300))),
        2 => {
            // 2^k, and its neighbours
            let k = c.below(n);
            let b = Big::pow2(k);
            match c.below(5) {
                0 => b,
                1 => b.sub(&one),
                2 => b.add(&Big::from_u64(c.draw(600))),
                3 => m.red(&m.p.sub(&b)),
                _ => {
                    let d = Big::from_u64(c.draw(600));
                    m.sub(&b, &d)
                }
            }
        }
        3 => {
            // 2^k +- 2^j
            let a = Big::pow2(c.below(n));
            let b = Big::pow2(c.below(n));
            if c.flag() { m.sub(&a, &b) } else { m.red(&a.add(&b)) }
        }
        4 | 5 | 6 => {
            // words (two digits), digits or bytes, each special or random
            let w = match c.below(6) {
                0 | 1 => i.word,
                2 | 3 => i.word / 2,
                4 => 8,
                _ => 64,
            };
            pattern(c, n, w)
        }
        7 => {
            // runs of equal bits
            let mut v = Big::ZERO;
            let mut at = 0;
            let mut b = c.flag();
            while at < n {
                let len = 1 + c.below(n);
                let len = len.min(1 + c.below(140)).min(n - at);
                if b {
                    v = v.or(&Big::pow2(len).sub(&one).shl(at));
                }
                b = !b;
                at += len;
            }
            v
        }
        8 => {
            // p/k, roughly: the values whose small multiples sit at the modulus
            let k = 2 + c.draw(30);
            let mut q = Big::ZERO;
            let mut r = 0u64;
            for b in (0..n).rev() {
                r = 2 * r + m.p.bit(b) as u64;
                if r >= k {
                    r -= k;
                    q = q.or(&Big::pow2(b));
                }
            }
            let d = Big::from_u64(c.draw(40));
            if c.flag() { m.sub(&q, &d) } else { m.red(&q.add(&d)) }
        }
        9 => {
            // low part special, high part random or the reverse
            let k = 1 + c.below(n - 1);
            let r = random_bits(c, n);
            match c.below(4) {
                0 => r.low(k),
                1 => r.shr(k).shl(k),
                2 => r.shr(k).shl(k).or(&Big::pow2(k).sub(&one)),
                _ => r.low(k).or(&Big::pow2(n).sub(&Big::pow2(k))),
            }
        }
        10 => heavy(c, n, i.word / 2),
        _ => random_bits(c, n),
    };
    m.red(&v.low(n))
}

/// Now and again, and only if the code under test has literals of its own
/// (see `literals`): a value made of one.
fn gen_literal(c: &mut Ctx, i: &Info) -> Option<Big> {
    let list = crate::literals::fresh();
    let arrays = crate::literals::arrays();
    if list.is_empty() && arrays.is_empty() || !c.chance(1, 5) {
        return None;
    }
    let n = i.m.n;
    if list.is_empty() || !arrays.is_empty() && c.chance(1, 3) {
        // a whole list of them, as words, digits or bytes
        let a = &arrays[c.below(arrays.len())];
        let w = match c.below(4) {
            _ if a.iter().all(|x| *x < 256) && a.len() >= 16 => 8,
            0 => i.word / 2,
            1 => 64,
            _ => i.word,
        };
        let back = c.chance(1, 4);
        let mut v = Big::ZERO;
        for k in 0..a.len().min((n + w - 1) / w) {
            let x = if back { a[a.len() - 1 - k] } else { a[k] };
            v = v.or(&Big::from_u64(if w == 64 { x } else { x & ((1 << w) - 1) }).shl(k * w));
        }
        let v = i.m.red(&v.low(n));
        return Some(match c.below(8) {
            0 => i.m.neg(&v),
            1 => i.m.add(&v, &Big::from_u64(1)),
            2 => i.m.sub(&v, &Big::from_u64(1)),
            _ => v,
        });
    }
    let lit = list[c.below(list.len())];
    let near = |c: &mut Ctx| lit.wrapping_add([0, 0, 1, u64::MAX][c.below(4)]);
    let v = match c.below(4) {
        0 => Big::from_u64(near(c)),
        1 => i.m.neg(&Big::from_u64(near(c))),
        _ => {
            // some words, digits or bytes of it
            let w = [i.word, i.word / 2, 8, 64][c.below(4)];
            let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let mut v = match c.below(3) {
                0 => Big::ZERO,
                1 => random_bits(c, n),
                _ => pattern(c, n, w),
            };
            for _ in 0..1 + c.below(3) {
                let at = c.below((n + w - 1) / w) * w;
                let x = if c.chance(1, 4) { near(c).wrapping_neg() } else { near(c) };
                v = v.low(at).or(&v.shr(at + w).shl(at + w)).or(&Big::from_u64(x & mask).shl(at));
            }
            v
        }
    };
    Some(i.m.red(&v.low(n)))
}

fn random_bits(c: &mut Ctx, n: usize) -> Big {
    let mut v = Big::ZERO;
    for k in 0..(n + 63) / 64 {
        v.0[k] = c.draw(0);
    }
    v.low(n)
}

/// Digits whose products are near the top of both halves of their range:
/// 2^w - s with s a little under 2^(w/2), so that the carries between the
/// columns of a product reach their largest values.
fn heavy(c: &mut Ctx, n: usize, w: usize) -> Big {
    let mut root = 1u64 << (w / 2);
    while (root + 1) * (root + 1) <= 1u64 << w {
        root += 1;
    }
    let exceptions = c.flag();
    let mut v = Big::ZERO;
    let mut at = 0;
    while at < n {
        let x = match if exceptions { c.below(8) } else { 0 } {
            6 => (1u64 << w) - 1 - c.draw(3),
            7 => c.draw(1 << w),
            _ => (1u64 << w) - root + c.draw(40),
        };
        v = v.or(&Big::from_u64(x).shl(at));
        at += w;
    }
    v.low(n)
}

fn pattern(c: &mut Ctx, n: usize, w: usize) -> Big {
    let mut v = Big::ZERO;
    let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut at = 0;
    // Either every part chosen freely, or one part repeated with exceptions.
    let base = c.below(3);
    while at < n {
        let k = if base == 1 && !c.chance(1, 4) {
            0
        } else if base == 2 && !c.chance(1, 4) {
            1
        } else {
            c.below(9)
        };
        let x = match k {
            0 => 0,
            1 => max,
            2 => 1,
            3 => max - 1,
            4 => 1u64 << (w - 1),
            5 => (1u64 << (w - 1)) - 1,
            6 => c.draw(64),
            7 => max - c.draw(64),
            _ => c.draw(0) & max,
        };
        v = v.or(&Big::from_u64(x).shl(at));
        at += w;
    }
    v.low(n)
}

/// A machine integer, biased to small and extreme ones.
pub fn gen_i32(c: &mut Ctx) -> i32 {
    let list = crate::literals::fresh();
    if !list.is_empty() && c.chance(1, 5) {
        let x = list[c.below(list.len())] as i32;
        let x = x.wrapping_add([0, 0, 1, -1][c.below(4)]);
        return if c.flag() { x.wrapping_neg() } else { x };
    }
    match c.below(10) {
        0 => c.draw(4) as i32,
        1 => -(c.draw(4) as i32),
        2 => c.draw(128) as i32,
        3 => -(1 + c.draw(128) as i32),
        4 => {
            let k = c.below(31);
            (1i32 << k).wrapping_add(c.draw(3) as i32).wrapping_sub(1)
        }
        5 => {
            let k = c.below(31);
            (-(1i32 << k)).wrapping_add(c.draw(3) as i32).wrapping_sub(1)
        }
        6 => i32::MAX - c.draw(4) as i32,
        7 => i32::MIN + c.draw(4) as i32,
        8 => {
            let k = c.draw(65536) as i32;
            k - 32768
        }
        _ => c.draw(0) as u32 as i32,
    }
}

/// An element, the integer it must stand for, and how it was made.
#[derive(Clone)]
pub struct El<F> {
    pub x: F,
    pub v: Big,
    pub how: String,
    /// Reached by arithmetic, so possibly not in normal form.
    pub lazy: bool,
}

fn how(c: &Ctx, f: impl FnOnce() -> String) -> String {
    if c.verbose { f() } else { String::new() }
}

/// An element in a representation that the public API can reach.
pub fn gen_elem<F: Fld>(c: &mut Ctx, depth: usize) -> El<F> {
    let i = F::info();
    let m = i.m;
    let one = Big::from_u64(1);
    let k = if depth == 0 { c.below(4) } else { c.below(18) };
    match k {
        0 | 1 => {
            let v = gen_value(c, &i);
            El { x: elem(&v), v, how: how(c, || format!("unpack({:?})", v)), lazy: false }
        }
        2 => {
            // A published constant; the modulus itself stands for 0.
            let which = c.below(4);
            let x = if c.flag() {
                [F::zero(), F::one(), F::m_one(), F::modulus()][which]
            } else {
                F::consts()[which]
            };
            let v = [Big::ZERO, one, m.p.sub(&one), Big::ZERO][which];
            let name = ["ZERO", "ONE", "M_ONE", "MODULUS"][which];
            El { x, v, how: how(c, || name.to_string()), lazy: which == 3 }
        }
        3 | 4 | 5 => {
            // a + b with a chosen integer sum in [0, 2p-2].
            let top = m.p.add(&m.p).sub(&one).sub(&one);
            let t = match c.below(8) {
                0 => m.p.add(&Big::from_u64(c.draw(2 * m.c + 40))),
                1 => Big::pow2(m.n).add(&Big::from_u64(c.draw(2 * m.c + 40))),
                2 => Big::pow2(m.n).sub(&Big::from_u64(c.draw(2 * m.c + 40))),
                3 => top.sub(&Big::from_u64(c.draw(3 * m.c + 40))),
                4 => m.p.sub(&one).sub(&Big::from_u64(c.draw(40))),
                5 => gen_value(c, &i),
                _ => Big::pow2(m.n).add(&gen_value(c, &i)),
            };
            let t = if t > top { top } else { t };
            // a in [max(0, t-(p-1)), min(p-1, t)]
            let pm1 = m.p.sub(&one);
            let lo = if t > pm1 { t.sub(&pm1) } else { Big::ZERO };
            let hi = if t > pm1 { pm1 } else { t };
            let a = gen_value(c, &i);
            let a = if a < lo { lo } else if a > hi { hi } else { a };
            let b = t.sub(&a);
            let x: F = elem::<F>(&a) + elem::<F>(&b);
            El { x, v: m.red(&t), how: how(c, || format!("({:?} + {:?})", a, b)), lazy: true }
        }
        6 | 7 => {
            // a - b with a chosen integer difference in [-(p-1), p-1].
            let pm1 = m.p.sub(&one);
            let d = match c.below(5) {
                0 => Big::from_u64(c.draw(2 * m.c + 40)),
                1 => pm1.sub(&Big::from_u64(c.draw(2 * m.c + 40))),
                2 => Big::pow2(c.below(m.n)),
                _ => gen_value(c, &i),
            };
            let d = if d > pm1 { pm1 } else { d };
            let negative = !c.chance(1, 4);
            let s = gen_value(c, &i);
            let room = pm1.sub(&d);
            let s = if s > room { room } else { s };
            let big = s.add(&d);
            let (a, b) = if negative { (s, big) } else { (big, s) };
            let x: F = elem::<F>(&a) - elem::<F>(&b);
            El { x, v: m.sub(&a, &b), how: how(c, || format!("({:?} - {:?})", a, b)), lazy: true }
        }
        8 => {
            let e = gen_elem::<F>(c, depth - 1);
            let k = gen_i32(c);
            El {
                x: e.x.small_add(k),
                v: m.add(&e.v, &m.int(k as i64)),
                how: how(c, || format!("({} + {}i32)", e.how, k)),
                lazy: true,
            }
        }
        9 => {
            let e = gen_elem::<F>(c, depth - 1);
            let k = gen_i32(c);
            El {
                x: e.x.small_sub(k),
                v: m.sub(&e.v, &m.int(k as i64)),
                how: how(c, || format!("({} - {}i32)", e.how, k)),
                lazy: true,
            }
        }
        10 => {
            let e = gen_elem::<F>(c, depth - 1);
            let k = gen_i32(c);
            El {
                x: e.x.small_mul(k),
                v: m.mul(&e.v, &m.int(k as i64)),
                how: how(c, || format!("({} * {}i32)", e.how, k)),
                lazy: true,
            }
        }
        11 => {
            let a = gen_elem::<F>(c, depth - 1);
            let b = gen_elem::<F>(c, depth - 1);
            El {
                x: a.x + b.x,
                v: m.add(&a.v, &b.v),
                how: how(c, || format!("({} + {})", a.how, b.how)),
                lazy: true,
            }
        }
        12 => {
            let a = gen_elem::<F>(c, depth - 1);
            let b = gen_elem::<F>(c, depth - 1);
            El {
                x: a.x - b.x,
                v: m.sub(&a.v, &b.v),
                how: how(c, || format!("({} - {})", a.how, b.how)),
                lazy: true,
            }
        }
        13 => {
            let a = gen_elem::<F>(c, depth - 1);
            let b = gen_elem::<F>(c, depth - 1);
            El {
                x: a.x * b.x,
                v: m.mul(&a.v, &b.v),
                how: how(c, || format!("({} * {})", a.how, b.how)),
                lazy: true,
            }
        }
        14 => {
            let a = gen_elem::<F>(c, depth - 1);
            El { x: a.x.squared(), v: m.mul(&a.v, &a.v), how: how(c, || format!("{}^2", a.how)), lazy: true }
        }
        15 => {
            let a = gen_elem::<F>(c, depth - 1);
            El { x: -a.x, v: m.neg(&a.v), how: how(c, || format!("(-{})", a.how)), lazy: true }
        }
        16 => {
            // Many in a row: doublings by addition, or one operand over and
            // over, so that whatever is left unreduced accumulates.
            let a = gen_elem::<F>(c, depth - 1);
            let b = gen_elem::<F>(c, 0);
            let times = 1 + c.below(60);
            let (mut x, mut v) = (a.x, a.v);
            let kind = c.below(4);
            for _ in 0..times {
                match kind {
                    0 | 1 => {
                        let y = x;
                        x += y;
                        v = m.add(&v, &v);
                    }
                    2 => {
                        x += b.x;
                        v = m.add(&v, &b.v);
                    }
                    _ => {
                        x -= b.x;
                        v = m.sub(&v, &b.v);
                    }
                }
            }
            let what = ["doubled", "doubled", "plus", "minus"][kind];
            El { x, v, how: how(c, || format!("({} {} {} times [{}])", a.how, what, times, b.how)), lazy: true }
        }
        _ => {
            let a = gen_elem::<F>(c, depth - 1);
            let mut x = a.x;
            x.normalize();
            El { x, v: a.v, how: how(c, || format!("norm({})", a.how)), lazy: false }
        }
    }
}

/// Does the stored form differ from the normal form of the same element?
/// (For classification only: compares the bytes of the two.)
pub fn is_lazy_form<F: Fld>(x: &F) -> bool {
    let mut n = *x;
    n.normalize();
    raw(&n) != raw(x)
}

/// The bytes of an element as stored (plain integers, no padding).
pub fn raw<F: Fld>(x: &F) -> Vec<u64> {
    let k = std::mem::size_of::<F>() / 8;
    let p = x as *const F as *const u64;
    (0..k).map(|i| unsafe { std::ptr::read_unaligned(p.add(i)) }).collect()
}

/// An element standing for the reduced integer `v` in some reachable
/// representation, often not the normal one.
pub fn gen_rep<F: Fld>(c: &mut Ctx, v: &Big) -> F {
    let i = F::info();
    let m = i.m;
    match c.below(9) {
        0 | 1 => elem(v),
        7 => {
            // Many additions or subtractions of the same element.
            let r = gen_value(c, &i);
            let k = 1 + c.below(40);
            let kr = m.mul(&r, &Big::from_u64(k as u64));
            let r: F = elem(&r);
            let add = c.flag();
            let mut x: F = elem(&if add { m.sub(v, &kr) } else { m.add(v, &kr) });
            for _ in 0..k {
                if add {
                    x += r;
                } else {
                    x -= r;
                }
            }
            x
        }
        2 => {
            // v + p, stored without reduction where it fits: (v+1) + M_ONE.
            let w = m.add(v, &Big::from_u64(1));
            elem::<F>(&w) + elem::<F>(&m.p.sub(&Big::from_u64(1)))
        }
        3 => {
            // a - b with a < b: a borrow is left behind.
            let r = gen_value(c, &i);
            elem::<F>(&m.add(v, &r)) - elem::<F>(&r)
        }
        4 => {
            let r = gen_value(c, &i);
            elem::<F>(&m.sub(v, &r)) + elem::<F>(&r)
        }
        5 => {
            let k = gen_i32(c);
            let x: F = elem(&m.sub(v, &m.int(k as i64)));
            x.small_add(k)
        }
        6 => {
            let x: F = elem(&m.neg(v));
            -x
        }
        _ => {
            let x: F = elem(v);
            x * F::one()
        }
    }
}

/// An operand for a property: generated, described and counted.
pub fn operand<F: Fld>(c: &mut Ctx, name: &str, depth: usize) -> El<F> {
    let e = gen_elem::<F>(c, depth);
    c.key(&e.v);
    c.say(|| format!("{} = {}   [value {:?}, stored as {:?}]", name, e.how, e.v, e.x));
    if e.lazy && is_lazy_form(&e.x) {
        c.label("operand not in normal form");
        c.nontrivial = true;
    }
    if special(&e.v, &F::info()) {
        c.label("operand with an extreme word");
        c.nontrivial = true;
    }
    e
}

/// A second operand: mostly independent of `a`, sometimes tied to it (the
/// same element, equal, opposite, near, or sharing words with it), since
/// operations on unrelated operands never meet.
pub fn partner<F: Fld>(c: &mut Ctx, name: &str, a: &El<F>, depth: usize) -> El<F> {
    let i = F::info();
    let m = i.m;
    let kind = c.below(26);
    if kind >= 10 {
        return operand::<F>(c, name, depth);
    }
    if kind == 0 {
        c.key(&"same");
        c.label("the same element twice");
        c.say(|| format!("{} = a", name));
        return El { x: a.x, v: a.v, how: "a".to_string(), lazy: a.lazy };
    }
    if kind == 9 {
        let (x, v) = recarried(c, &a.x);
        c.label("the same words with another carry");
        c.key(&("recarried", v));
        c.say(|| format!("{} (the same words with another carry) = {:?}, stored as {:?}", name, v, x));
        c.nontrivial = true;
        return El { x, v, how: "another carry".to_string(), lazy: true };
    }
    let one = Big::from_u64(1);
    let (v, what) = match kind {
        1 => (a.v, "equal value"),
        2 => (m.neg(&a.v), "opposite"),
        3 => {
            let d = Big::pow2(c.below(m.n));
            (if c.flag() { m.add(&a.v, &m.red(&d)) } else { m.sub(&a.v, &m.red(&d)) }, "a power of two away")
        }
        4 => (m.sub(&m.p.sub(&one), &a.v), "bit complement, nearly"),
        5 => (m.mul(&a.v, &m.int(gen_i32(c) as i64)), "small multiple"),
        6 => {
            // The same below or above some word boundary.
            let k = i.word * (1 + c.below((m.n - 1) / i.word));
            let r = gen_value(c, &i);
            let v = if c.flag() { a.v.low(k).or(&r.shr(k).shl(k)) } else { r.low(k).or(&a.v.shr(k).shl(k)) };
            (m.red(&v), "shares words")
        }
        7 => (balanced(c, &a.v, &i), "differs in two words alike"),
        _ => {
            // One word moved to a special place.
            let k = i.word * c.below((m.n + i.word - 1) / i.word);
            let w = i.word.min(m.n - k);
            let new = match c.below(3) {
                0 => Big::ZERO,
                1 => Big::pow2(w).sub(&one),
                _ => gen_value(c, &i).low(w),
            };
            let v = a.v.low(k).or(&new.shl(k)).or(&a.v.shr(k + w).shl(k + w));
            (m.red(&v), "differs in one word")
        }
    };
    c.label("operands tied to each other");
    c.key(&v);
    let x = gen_rep::<F>(c, &v);
    c.say(|| format!("{} ({}) = {:?}, stored as {:?}", name, what, v, x));
    if is_lazy_form(&x) {
        c.label("operand not in normal form");
        c.nontrivial = true;
    }
    if special(&v, &i) {
        c.label("operand with an extreme word");
        c.nontrivial = true;
    }
    El { x, v, how: what.to_string(), lazy: true }
}

/// An element stored in the words of `x` but for what is carried above the
/// top bit, and the integer it stands for.
fn recarried<F: Fld>(c: &mut Ctx, x: &F) -> (F, Big) {
    let i = F::info();
    let m = i.m;
    let words = raw(x);
    let top = m.n - (words.len() - 1) * i.word;
    let mut low = Big::ZERO;
    for (k, w) in words.iter().enumerate() {
        let width = if k + 1 == words.len() { top } else { i.word };
        low = low.or(&Big::from_u64(w & ((1 << width) - 1)).shl(k * i.word));
    }
    let carry = (words[words.len() - 1] as i64) >> top;
    let pm1 = m.p.sub(&Big::from_u64(1));
    let full = Big::pow2(m.n);
    let r = gen_value(c, &i);
    let within = |lo: Big, hi: Big| if r < lo { lo } else if r > hi { hi } else { r };
    let way = c.below(3);
    let sum = full.add(&low);
    if way == 0 && carry != 1 && sum <= pm1.add(&pm1) {
        let a = within(sum.sub(&pm1), pm1);
        return (elem::<F>(&a) + elem::<F>(&sum.sub(&a)), m.red(&sum));
    }
    let less = full.sub(&low);
    if way == 1 && carry != -1 && less <= pm1 {
        let a = within(Big::ZERO, pm1.sub(&less));
        return (elem::<F>(&a) - elem::<F>(&a.add(&less)), m.neg(&less));
    }
    if low <= pm1 {
        return (elem(&low), low);
    }
    let a = within(low.sub(&pm1), pm1);
    (elem::<F>(&a) + elem::<F>(&low.sub(&a)), m.red(&low))
}

/// A value that differs from `v` in two words, in ways that cancel: the words
/// exchanged, the same bits flipped, or an amount moved from one to the other.
pub fn balanced(c: &mut Ctx, v: &Big, i: &Info) -> Big {
    let words = (i.m.n + i.word - 1) / i.word;
    let j = c.below(words);
    let k = (j + 1 + c.below(words - 1)) % words;
    let width = |w: usize| i.word.min(i.m.n - w * i.word);
    let part = |w: usize| v.shr(w * i.word).low(width(w)).0[0];
    let narrow = (1u64 << width(j).min(width(k))) - 1;
    let (x, y) = (part(j), part(k));
    let pattern = |c: &mut Ctx| match c.below(3) {
        0 => 1u64 << c.below(i.word),
        1 => c.draw(16),
        _ => c.draw(0),
    } & narrow;
    let (nx, ny) = match c.below(3) {
        0 => ((x & !narrow) | (y & narrow), (y & !narrow) | (x & narrow)),
        1 => {
            let d = pattern(c);
            (x ^ d, y ^ d)
        }
        _ => {
            let room = ((1u64 << width(j)) - 1 - x).min(y);
            let d = pattern(c).min(room);
            (x + d, y - d)
        }
    };
    let mut out = Big::ZERO;
    for w in 0..words {
        let b = if w == j { nx } else if w == k { ny } else { part(w) };
        out = out.or(&Big::from_u64(b).shl(w * i.word));
    }
    i.m.red(&out)
}

/// Has the value a word that is all zeros or all ones (a carry boundary)?
pub fn special(v: &Big, i: &Info) -> bool {
    let w = i.word;
    let mut at = 0;
    while at < i.m.n {
        let k = w.min(i.m.n - at);
        let part = v.shr(at).low(k).0[0];
        if part == 0 || part == (1u64 << k) - 1 {
            return true;
        }
        at += w;
    }
    false
}
