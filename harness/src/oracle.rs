//! The reference arithmetic's own test, run at the start of every check.

use crate::big::{Big, Modp};
use crate::engine::Prng;

fn big(r: &mut Prng, words: usize) -> Big {
    let mut b = Big::ZERO;
    for k in 0..words {
        b.0[k] = match r.next() % 5 {
            0 => 0,
            1 => u64::MAX,
            _ => r.next(),
        };
    }
    b
}

pub fn self_test() -> Result<(), String> {
    let bad = |s: &str| Err(s.to_string());
    let mut r = Prng::new(7);
    let m521 = Modp::new(521, 1);
    // (a + b)(a - b) = a^2 - b^2, shifts against multiplication, carries.
    for _ in 0..200 {
        let a = big(&mut r, 8);
        let b = big(&mut r, 8);
        let (a, b) = if a < b { (b, a) } else { (a, b) };
        if a.add(&b).mul(&a.sub(&b)) != a.mul(&a).sub(&b.mul(&b)) {
            return bad("difference of squares");
        }
        let k = (r.next() % 300) as usize;
        if a.shl(k) != a.mul(&Big::pow2(k)) || a.shl(k).shr(k) != a {
            return bad("shift");
        }
        if a.low(k).add(&a.shr(k).shl(k)) != a {
            return bad("split");
        }
        if Big::from_le(&a.to_le(64)) != a || Big::from_hex(&a.hex()) != a {
            return bad("text");
        }
        let d = b.low(250).add(&Big::from_u64(1));
        let q = a.div_slow(&d);
        if q.mul(&d).add(&a.rem_slow(&d)) != a || a.rem_slow(&d) >= d {
            return bad("division");
        }
        let odd = a.or(&Big::from_u64(1));
        if odd.inv_2adic(500).mul(&odd).low(500) != Big::from_u64(1) {
            return bad("inverse modulo a power of two");
        }
        let w = odd.mul(&odd).low(300);
        let x = w.sqrt_2adic(300);
        if x.mul(&x).low(300) != w {
            return bad("root modulo a power of two");
        }
        let x = a.isqrt();
        let y = x.add(&Big::from_u64(1));
        if x.mul(&x) > a || y.mul(&y) <= a {
            return bad("integer root");
        }
        if a.and(&b).add(&a.or(&b)) != a.add(&b) {
            return bad("and/or");
        }
    }
    if Big::from_dec("340282366920938463463374607431768211456") != Big::pow2(128) {
        return bad("decimal");
    }
    for (n, c) in [(221, 3), (222, 117), (251, 9), (255, 19), (382, 105), (383, 187), (414, 17), (511, 187), (521, 1)] {
        let m = Modp::new(n, c);
        let one = Big::from_u64(1);
        for _ in 0..30 {
            let a = m.red(&big(&mut r, 9));
            let b = m.red(&big(&mut r, 9));
            if m.mul(&a, &b) != a.mul(&b).rem_slow(&m.p) || m.add(&a, &b) != a.add(&b).rem_slow(&m.p) {
                return bad("reduction");
            }
            if m.add(&m.sub(&a, &b), &b) != a || m.add(&m.neg(&a), &a) != Big::ZERO {
                return bad("subtraction");
            }
            if !a.is_zero() {
                if m.mul(&a, &m.inv(&a)) != one {
                    return bad("inverse");
                }
                // Euler's criterion against reciprocity.
                let e = m.p.sub(&one).shr(1);
                let w = m.pow(&a, &e);
                let j = if w == one { 1 } else { -1 };
                if j != m.jacobi(&a) {
                    return bad("Jacobi symbol");
                }
                if m.p.0[0] & 3 == 3 && m.jacobi(&a) == 1 {
                    let s = m.sqrt34(&a);
                    if m.mul(&s, &s) != a {
                        return bad("square root");
                    }
                }
            }
        }
        if m.int(-5) != m.p.sub(&Big::from_u64(5)) || m.int(i32::MIN as i64) != m.p.sub(&Big::pow2(31)) {
            return bad("small integers");
        }
    }
    let _ = m521;
    Ok(())
}
