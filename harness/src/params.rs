//! The published curve parameters.

use crate::big::{Big, Modp};
use crate::curve::*;
use crate::each_curve;
use crate::engine::{unit, Ctx, Res, Unit};
use crate::field::*;

fn ck(cond: bool, f: impl FnOnce() -> String) -> Res {
    if cond { Ok(()) } else { Err(f()) }
}

// ------------------------------------------------------------- primality

fn pow_mod(a: &Big, e: &Big, n: &Big) -> Big {
    let mut r = Big::from_u64(1);
    for i in (0..e.bits()).rev() {
        r = r.mul(&r).rem_slow(n);
        if e.bit(i) {
            r = r.mul(a).rem_slow(n);
        }
    }
    r
}

/// One Miller-Rabin round for odd n > 3 and 1 < a < n - 1.
fn probably_prime(n: &Big, a: &Big) -> bool {
    let one = Big::from_u64(1);
    let m = n.sub(&one);
    let mut s = 0;
    while !m.bit(s) {
        s += 1;
    }
    let mut x = pow_mod(a, &m.shr(s), n);
    if x == one || x == m {
        return true;
    }
    for _ in 1..s {
        x = x.mul(&x).rem_slow(n);
        if x == m {
            return true;
        }
    }
    false
}

fn witness(c: &mut Ctx, n: &Big) -> Big {
    let mut v = Big::ZERO;
    for w in 0..(n.bits() + 63) / 64 {
        v.0[w] = c.draw(0);
    }
    let v = v.rem_slow(&n.sub(&Big::from_u64(4)));
    v.add(&Big::from_u64(2))
}

/// The number of points nearest p + 1 that the order divides, over the order;
/// an error if none is in Hasse's interval (so for a prime order greater than
/// 4 sqrt p: if it is not the order of a subgroup of some curve).
fn cofactor(m: &Modp, order: &Big) -> Result<u64, String> {
    let p1 = m.p.add(&Big::from_u64(1));
    for h in 1..=64u64 {
        let t = order.mul_u64(h);
        let gap = if t > p1 { t.sub(&p1) } else { p1.sub(&t) };
        // |h order - (p+1)| <= 2 sqrt p
        if gap.bits() <= m.n && gap.mul(&gap) <= m.p.mul_u64(4) {
            return Ok(h);
        }
    }
    Err(format!("no multiple of the order {:?} is a possible number of points", order))
}

fn order_checks(c: &mut Ctx, m: &Modp, order: &Big, want_cofactor: u64) -> Res {
    let h = cofactor(m, order)?;
    ck(h == want_cofactor, || format!("cofactor {}, should be {}", h, want_cofactor))?;
    ck(order.bit(0), || "the order is even".to_string())?;
    let a = witness(c, order);
    c.key(&a);
    c.say(|| format!("Miller-Rabin base {:?}", a));
    ck(probably_prime(order, &a), || format!("the order {:?} is composite (witness {:?})", order, a))
}

/// A published constant is in normal form: what does not normalise (bit
/// reads, scalar multiplication by it) takes it for the same integer.
fn normal<F: Fld>(what: &str, x: &F) -> Res {
    let i = F::info();
    let v = value(x)?;
    let mut out = vec![0u8; i.nbytes];
    x.pack_normalized(&mut out);
    ck(out == v.to_le(i.nbytes), || format!("the published {} is not in normal form: {:?}", what, x))?;
    ck((0..i.m.n).all(|k| x.bit_normalized(k) == v.bit(k)), || format!("the published {} is not in normal form: {:?}", what, x))
}

// ---------------------------------------------------------------- Edwards

fn edwards<C: Crv>(u: &mut Vec<Unit>, s: usize) {
    u.push(unit(format!("{}/parameters", C::cinfo().name), 24 * s, 20_000, |c| {
        let ci = C::cinfo();
        let m = &ci.m;
        let (x, y, o) = C::base_and_order();
        for (what, v) in [("x", &x), ("y", &y), ("order", &o), ("d", &C::d_const())] {
            normal(what, v)?;
        }
        let (x, y, o) = (value(&x)?, value(&y)?, value(&o)?);
        let (d, d2) = (value(&C::d_const())?, value(&C::d_val())?);
        c.nontrivial = true;
        ck(d == ci.d, || format!("the published d is {:?}, documented as {:?}", d, ci.d))?;
        ck(d2 == ci.d, || format!("the curve computes with d = {:?}, documented as {:?}", d2, ci.d))?;
        ck(m.jacobi(&d) == -1, || "d is a square".to_string())?;
        ck((x, y) == ci.base, || format!("the published base point is ({:?}, {:?}), documented as {:?}", x, y, ci.base))?;
        ck(o == ci.order, || format!("the published order is {:?}, documented as {:?}", o, ci.order))?;
        let b = ci.affine(&(x, y));
        ck(ci.on_curve(&b), || "the base point is not on the curve".to_string())?;
        ck(!ci.is_zero(&b), || "the base point is neutral".to_string())?;
        order_checks(c, m, &o, ci.cofactor)?;
        ck(ci.is_zero(&ci.mul(&o, &b)), || "order * base point is not neutral".to_string())?;
        // and for a random multiple, and for a random point after the cofactor
        let k = gen_value(c, &C::S::info());
        c.key(&k);
        c.say(|| format!("k = {:?}", k));
        let q = ci.mul(&k, &b);
        ck(ci.is_zero(&ci.mul(&o, &q)), || "order * k * base point is not neutral".to_string())?;
        let p = gen_ref::<C>(c);
        let h = Big::from_u64(ci.cofactor);
        ck(ci.is_zero(&ci.mul(&o, &ci.mul(&h, &p))), || "cofactor * order * P is not neutral".to_string())
    }));
    u.push(unit(format!("{}/complete", C::cinfo().name), 2_000 * s, 40, |c| {
        // No denominator 1 +- d x1 x2 y1 y2 vanishes for points of the curve
        // given by the library's own d.
        let ci = C::cinfo();
        let m = &ci.m;
        let d = value(&C::d_val())?;
        let (p, q) = (ci.to_affine(&gen_ref::<C>(c)), ci.to_affine(&gen_ref::<C>(c)));
        c.key(&(p, q));
        c.nontrivial = true;
        c.say(|| format!("P = {:?}, Q = {:?}", p, q));
        let e = m.mul(&d, &m.mul(&m.mul(&p.0, &p.1), &m.mul(&q.0, &q.1)));
        let one = Big::from_u64(1);
        ck(e != one && e != m.neg(&one), || "the addition law has an exception".to_string())?;
        ck(ci.on_curve(&ci.affine(&p)), || "harness point off the curve".to_string())
    }));
}

// ------------------------------------------------------------- Montgomery

/// y^2 = x^3 + a x^2 + x; None is the neutral point.
type Mp = Option<(Big, Big)>;

fn m_on(m: &Modp, a: &Big, p: &(Big, Big)) -> bool {
    let xx = m.mul(&p.0, &p.0);
    let r = m.add(&m.mul(&xx, &m.add(&p.0, a)), &p.0);
    m.mul(&p.1, &p.1) == r
}

fn m_add(m: &Modp, a: &Big, p: &Mp, q: &Mp) -> Mp {
    let ((x1, y1), (x2, y2)) = match (p, q) {
        (None, _) => return *q,
        (_, None) => return *p,
        (Some(p), Some(q)) => (*p, *q),
    };
    let one = Big::from_u64(1);
    let l = if x1 == x2 {
        if m.add(&y1, &y2).is_zero() {
            return None;
        }
        // (3 x^2 + 2 a x + 1) / 2 y
        let num = m.add(&m.mul(&x1, &m.add(&m.mul(&Big::from_u64(3), &x1), &m.add(a, a))), &one);
        m.mul(&num, &m.inv(&m.add(&y1, &y1)))
    } else {
        m.mul(&m.sub(&y2, &y1), &m.inv(&m.sub(&x2, &x1)))
    };
    let x3 = m.sub(&m.sub(&m.sub(&m.mul(&l, &l), a), &x1), &x2);
    let y3 = m.sub(&m.mul(&l, &m.sub(&x1, &x3)), &y1);
    Some((x3, y3))
}

fn m_mul(m: &Modp, a: &Big, k: &Big, p: &Mp) -> Mp {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = m_add(m, a, &r, &r);
        if k.bit(i) {
            r = m_add(m, a, &r, p);
        }
    }
    r
}

struct Mont {
    name: &'static str,
    a: u64,
    base: (&'static str, &'static str),
    order: (usize, &'static str),
}

fn montgomery<F: Fld>(u: &mut Vec<Unit>, s: usize, w: Mont, x: F, y: F, order: F) {
    u.push(unit(format!("{}/parameters", w.name), 12 * s, 20_000, move |c| {
        let m = F::info().m;
        let a = Big::from_u64(w.a);
        for (what, v) in [("x", &x), ("y", &y), ("order", &order)] {
            normal(what, v)?;
        }
        let (x, y, o) = (value(&x)?, value(&y)?, value(&order)?);
        c.nontrivial = true;
        let (wx, wy) = (Big::from_hex(w.base.0), Big::from_hex(w.base.1));
        let wo = Big::pow2(w.order.0).add(&Big::from_dec(w.order.1));
        ck((x, y) == (wx, wy), || format!("the published base point is ({:?}, {:?}), documented as ({:?}, {:?})", x, y, wx, wy))?;
        ck(o == wo, || format!("the published order is {:?}, documented as {:?}", o, wo))?;
        ck(m_on(&m, &a, &(x, y)), || "the base point is not on the curve".to_string())?;
        // a^2 - 4 is a non-square: one point of order two, and a smooth curve
        let disc = m.sub(&m.mul(&a, &a), &Big::from_u64(4));
        ck(m.jacobi(&disc) == -1, || "a^2 - 4 is a square".to_string())?;
        order_checks(c, &m, &o, 8)?;
        let b = Some((x, y));
        ck(m_mul(&m, &a, &o, &b).is_none(), || "order * base point is not neutral".to_string())?;
        let k = Big::from_u64(1 + c.draw(1 << 62)).rem_slow(&o);
        c.key(&k);
        c.say(|| format!("k = {:?}", k));
        let q = m_mul(&m, &a, &k, &b);
        ck(q.is_some(), || "a small multiple of the base point is neutral".to_string())?;
        ck(q.map(|q| m_on(&m, &a, &q)) == Some(true), || "a multiple of the base point is off the curve".to_string())?;
        ck(m_mul(&m, &a, &o, &q).is_none(), || "order * k * base point is not neutral".to_string())
    }));
}

pub fn units(u: &mut Vec<Unit>, s: usize) {
    each_curve!(edwards(u, s));
    montgomery(u, s, Mont { name: "M-221", a: 117050,
        base: ("4", "f7acdd2a4939571d1cef14eca37c228e61dbff10707dc6c08c5056d"),
        order: (218, "438651314700378199859927091142747") },
        m221::M221_BASE_X, m221::M221_BASE_Y, m221::M221_ORDER);
    montgomery(u, s, Mont { name: "Curve25519", a: 486662,
        base: ("9", "20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9"),
        order: (252, "27742317777372353535851937790883648493") },
        m255::CURVE25519_BASE_X, m255::CURVE25519_BASE_Y, m255::CURVE25519_ORDER);
    montgomery(u, s, Mont { name: "M-383", a: 2065150,
        base: ("c", "1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e"),
        order: (380, "166236275931373516105219794935542153308039234455761613271") },
        m383::M383_BASE_X, m383::M383_BASE_Y, m383::M383_ORDER);
    montgomery(u, s, Mont { name: "Curve383187", a: 229969,
        base: ("5", "1eebe07dc1871896732b12d5504a32370471965c7a11f2c89865f855ab3cbd7c224e3620c31af3370788457dd5ce46df"),
        order: (380, "356080847217269887368687156533236720299699248977882517025") },
        m383::CURVE383187_BASE_X, m383::CURVE383187_BASE_Y, m383::CURVE383187_ORDER);
    montgomery(u, s, Mont { name: "M-511", a: 530438,
        base: ("5", "2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5"),
        order: (508, "10724754759635747624044531514068121842070756627434833028965540808827675062043") },
        m511::M511_BASE_X, m511::M511_BASE_Y, m511::M511_ORDER);
}
