//! The properties of the nine fields, as generated checks.

use crate::big::Big;
use crate::each_field;
use crate::engine::{unit, Ctx, Prng, Res, Unit};
use crate::field::*;
use rand::Rng;

type Us = Vec<Unit>;

fn nm<F: Fld>(what: &str) -> String {
    format!("{}/{}", F::info().name, what)
}

fn one() -> Big {
    Big::from_u64(1)
}

fn ck(cond: bool, f: impl FnOnce() -> String) -> Res {
    if cond { Ok(()) } else { Err(f()) }
}

/// The depth of the expression that produces an operand.
fn depth(c: &mut Ctx) -> usize {
    [1, 1, 2, 2, 3, 4][c.below(6)]
}

fn op<F: Fld>(c: &mut Ctx, name: &str) -> El<F> {
    let d = depth(c);
    operand::<F>(c, name, d)
}

fn partner_of<F: Fld>(c: &mut Ctx, a: &El<F>) -> El<F> {
    let d = depth(c);
    partner::<F>(c, "b", a, d)
}

/// An operand standing for a chosen integer.
fn op_of<F: Fld>(c: &mut Ctx, name: &str, v: &Big) -> El<F> {
    let x = gen_rep::<F>(c, v);
    c.key(v);
    c.say(|| format!("{} = {:?}, stored as {:?}", name, v, x));
    if is_lazy_form(&x) {
        c.label("operand not in normal form");
        c.nontrivial = true;
    }
    if special(v, &F::info()) {
        c.label("operand with an extreme word");
        c.nontrivial = true;
    }
    El { x, v: *v, how: String::new(), lazy: true }
}

fn op_nonzero<F: Fld>(c: &mut Ctx, name: &str) -> El<F> {
    let e = op::<F>(c, name);
    if e.v.is_zero() {
        // Zero is outside the domain; take one instead.
        return op_of::<F>(c, name, &one());
    }
    e
}

/// Every listed spelling gives the value its operation symbol calls for.
fn forms_are<F: Fld>(forms: &[(&'static str, char, F)], want: &[(char, Big)]) -> Res {
    for (name, kind, x) in forms {
        if let Some((_, w)) = want.iter().find(|(k, _)| k == kind) {
            expect(name, x, w)?;
        }
    }
    Ok(())
}

fn result_class<F: Fld>(c: &mut Ctx, v: &Big) {
    if special(v, &F::info()) {
        c.label("result with an extreme word");
        c.nontrivial = true;
    }
}

// --------------------------------------------------------------- F01, F02

fn f01<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("add-sub"), n, 2, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let s = m.add(&a.v, &b.v);
        let d = m.sub(&a.v, &b.v);
        result_class::<F>(c, &s);
        result_class::<F>(c, &d);
        expect("a + b", &(a.x + b.x), &s)?;
        expect("a - b", &(a.x - b.x), &d)
    }));
    u.push(unit(nm::<F>("target-sum"), n / 2, 2, |c| {
        // Operands chosen so that the sum or difference has a given shape.
        let i = F::info();
        let m = i.m;
        let a = op::<F>(c, "a");
        let t = gen_value(c, &i);
        c.say(|| format!("target = {:?}", t));
        result_class::<F>(c, &t);
        if c.flag() {
            let b = op_of::<F>(c, "b", &m.sub(&t, &a.v));
            expect("a + b", &(a.x + b.x), &t)
        } else {
            let b = op_of::<F>(c, "b", &m.sub(&a.v, &t));
            expect("a - b", &(a.x - b.x), &t)
        }
    }));
    u.push(unit(nm::<F>("self-and-chain"), n / 4, 4, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        expect("a + a", &(a.x + a.x), &m.add(&a.v, &a.v))?;
        expect("a - a", &(a.x - a.x), &Big::ZERO)?;
        // A run of additions and subtractions without any normalisation.
        let mut x = a.x;
        let mut v = a.v;
        let k = 1 + c.below(40);
        let b = partner_of::<F>(c, &a);
        let plus = c.below(3);
        for j in 0..k {
            if plus == 0 || (plus == 1 && j % 2 == 0) {
                x += b.x;
                v = m.add(&v, &b.v);
            } else {
                x -= b.x;
                v = m.sub(&v, &b.v);
            }
        }
        c.say(|| format!("a with b added/subtracted {} times (mode {})", k, plus));
        expect("chain", &x, &v)
    }));
    u.push(unit(nm::<F>("every-spelling"), n / 8, 10, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        c.nontrivial = true;
        let w = [('+', m.add(&a.v, &b.v)), ('-', m.sub(&a.v, &b.v))];
        forms_are(&F::binary_forms(&a.x, &b.x), &w)
    }));
}

fn f02<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("neg"), n, 2, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let w = m.neg(&a.v);
        result_class::<F>(c, &w);
        let x = -a.x;
        expect("-a", &x, &w)?;
        expect("-(-a)", &-x, &a.v)?;
        expect("a + (-a)", &(a.x + x), &Big::ZERO)?;
        let b = partner_of::<F>(c, &a);
        expect("b + (-a)", &(b.x + x), &m.sub(&b.v, &a.v))?;
        expect("b * (-a)", &(b.x * x), &m.mul(&b.v, &w))
    }));
    u.push(unit(nm::<F>("target-neg"), n / 2, 2, |c| {
        let i = F::info();
        let t = gen_value(c, &i);
        result_class::<F>(c, &t);
        let a = op_of::<F>(c, "a", &i.m.neg(&t));
        expect("-a", &-a.x, &t)
    }));
}

// -------------------------------------------------------------------- F03

fn f03<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("mul"), n, 2, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let w = m.mul(&a.v, &b.v);
        result_class::<F>(c, &w);
        expect("a * b", &(a.x * b.x), &w)
    }));
    u.push(unit(nm::<F>("square"), n, 2, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let w = m.mul(&a.v, &a.v);
        result_class::<F>(c, &w);
        expect("a squared", &a.x.squared(), &w)?;
        let mut x = a.x;
        x.square();
        expect("square in place", &x, &w)
    }));
    u.push(unit(nm::<F>("every-spelling"), n / 8, 10, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        c.nontrivial = true;
        forms_are(&F::binary_forms(&a.x, &b.x), &[('*', m.mul(&a.v, &b.v))])?;
        forms_are(&F::binary_forms(&a.x, &a.x), &[('*', m.mul(&a.v, &a.v))])
    }));
    u.push(unit(nm::<F>("target-product"), n / 4, 30, |c| {
        // b = t / a for a chosen product t.
        let i = F::info();
        let a = op_nonzero::<F>(c, "a");
        let t = gen_value(c, &i);
        c.say(|| format!("target = {:?}", t));
        result_class::<F>(c, &t);
        let b = op_of::<F>(c, "b", &i.m.mul(&t, &i.m.inv(&a.v)));
        expect("a * b", &(a.x * b.x), &t)?;
        expect("b * a", &(b.x * a.x), &t)
    }));
    if F::info().m.p.0[0] & 3 == 3 {
        u.push(unit(nm::<F>("target-square"), n / 40, 300, |c| {
            // a = sqrt(+-t) for a chosen square t (one of t, -t is a square).
            let i = F::info();
            let t = gen_value(c, &i);
            let t = if i.m.jacobi(&t) < 0 { i.m.neg(&t) } else { t };
            c.say(|| format!("target = {:?}", t));
            result_class::<F>(c, &t);
            let a = op_of::<F>(c, "a", &i.m.sqrt34(&t));
            expect("a squared", &a.x.squared(), &t)?;
            expect("a * a", &(a.x * a.x), &t)
        }));
    }
    u.push(unit(nm::<F>("target-half"), n / 16, 100, |c| {
        // The lower or the upper half of the product, before it is reduced,
        // is chosen: b = t / a modulo 2^n, or b = t 2^n / a rounded.
        let i = F::info();
        let m = i.m;
        let one = Big::from_u64(1);
        let va = gen_value(c, &i);
        let t = gen_value(c, &i);
        c.say(|| format!("target = {:?}", t));
        let (va, vb) = if c.flag() {
            let va = m.red(&va.or(&one));
            let va = if va.bit(0) { va } else { one };
            (va, t.mul(&va.inv_2adic(m.n)).low(m.n))
        } else {
            let va = if va < t { m.red(&va.or(&Big::pow2(m.n - 1))) } else { va };
            let va = if va.is_zero() { one } else { va };
            (va, t.shl(m.n).add(&va.sub(&one)).div_slow(&va).low(m.n))
        };
        let a = op_of::<F>(c, "a", &m.red(&va));
        let b = op_of::<F>(c, "b", &m.red(&vb));
        let w = m.mul(&a.v, &b.v);
        result_class::<F>(c, &w);
        expect("a * b", &(a.x * b.x), &w)?;
        expect("b * a", &(b.x * a.x), &w)
    }));
    u.push(unit(nm::<F>("target-square-half"), n / 100, 200, |c| {
        let i = F::info();
        let m = i.m;
        let t = gen_value(c, &i);
        c.say(|| format!("target = {:?}", t));
        let va = if c.flag() {
            // the lower half: t with 1 modulo 8
            let t = t.shr(3).shl(3).or(&Big::from_u64(1));
            let r = t.sqrt_2adic(m.n + 1).low(m.n);
            if c.flag() { r } else { Big::pow2(m.n).sub(&r) }
        } else {
            t.shl(m.n).isqrt().add(&Big::from_u64(c.draw(2))).low(m.n)
        };
        let a = op_of::<F>(c, "a", &m.red(&va));
        let w = m.mul(&a.v, &a.v);
        result_class::<F>(c, &w);
        expect("a squared", &a.x.squared(), &w)?;
        expect("a * a", &(a.x * a.x), &w)
    }));
    u.push(unit(nm::<F>("power-chain"), n / 40, 60, |c| {
        // Repeated squaring and multiplication without normalisation.
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let mut x = a.x;
        let mut v = a.v;
        let k = 1 + c.below(60);
        for _ in 0..k {
            if c.flag() {
                x.square();
                v = m.mul(&v, &v);
            } else {
                x *= b.x;
                v = m.mul(&v, &b.v);
            }
        }
        expect("power chain", &x, &v)
    }));
    u.push(unit(nm::<F>("sparse-digits"), n, 2, |c| {
        // One or two extreme digits in otherwise empty or full operands: every
        // partial product alone.
        let i = F::info();
        let m = i.m;
        let dw = i.word / 2;
        let nd = (m.n + dw - 1) / dw;
        let mk = |c: &mut Ctx| {
            let mut v = Big::ZERO;
            for _ in 0..1 + c.below(2) {
                let d = c.below(nd);
                let w = dw.min(m.n - d * dw);
                let x = match c.below(4) {
                    0 => 1,
                    1 => (1u64 << w) - 1,
                    2 => 1u64 << (w - 1),
                    _ => c.draw(1u64 << w),
                };
                v = v.or(&Big::from_u64(x).shl(d * dw));
            }
            let v = m.red(&v);
            if c.chance(1, 4) { m.neg(&v) } else { v }
        };
        let va = mk(c);
        let vb = mk(c);
        let a = op_of::<F>(c, "a", &va);
        let b = op_of::<F>(c, "b", &vb);
        expect("a * b", &(a.x * b.x), &m.mul(&a.v, &b.v))?;
        expect("(a+b) squared", &(a.x + b.x).squared(), &{
            let s = m.add(&a.v, &b.v);
            m.mul(&s, &s)
        })
    }));
}

// -------------------------------------------------------------------- F04

fn f04<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("digit"), n, 3, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let k = gen_i32(c);
        c.key(&k);
        c.say(|| format!("k = {}", k));
        if k < -65536 || k > 65536 {
            c.label("large machine integer");
            c.nontrivial = true;
        }
        let b = m.int(k as i64);
        expect("a + k", &a.x.small_add(k), &m.add(&a.v, &b))?;
        expect("a - k", &a.x.small_sub(k), &m.sub(&a.v, &b))?;
        let w = m.mul(&a.v, &b);
        result_class::<F>(c, &w);
        expect("a * k", &a.x.small_mul(k), &w)
    }));
    u.push(unit(nm::<F>("narrow-digit"), n / 4, 3, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let k8 = match c.below(4) {
            0 => i8::MIN,
            1 => i8::MAX,
            2 => -1,
            _ => c.draw(256) as u8 as i8,
        };
        let k16 = match c.below(5) {
            0 => i16::MIN,
            1 => i16::MAX,
            2 => -1,
            3 => 255,
            _ => c.draw(65536) as u16 as i16,
        };
        c.key(&(k8, k16));
        c.nontrivial = true;
        c.say(|| format!("k8 = {}, k16 = {}", k8, k16));
        let b8 = m.int(k8 as i64);
        let b16 = m.int(k16 as i64);
        expect("a + k8", &(a.x + k8), &m.add(&a.v, &b8))?;
        expect("a - k8", &(a.x - k8), &m.sub(&a.v, &b8))?;
        expect("a * k8", &(a.x * k8), &m.mul(&a.v, &b8))?;
        expect("a + k16", &(a.x + k16), &m.add(&a.v, &b16))?;
        expect("a - k16", &(a.x - k16), &m.sub(&a.v, &b16))?;
        expect("a * k16", &(a.x * k16), &m.mul(&a.v, &b16))
    }));
    u.push(unit(nm::<F>("every-spelling"), n / 8, 10, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let k = match c.below(6) {
            0 => [i32::MIN, i32::MAX, -32768, 32767, -128, 127, i32::MIN + 1, 128, 32768, -129, -32769][c.below(11)],
            1 => c.draw(256) as u8 as i8 as i32,
            2 => c.draw(65536) as u16 as i16 as i32,
            _ => gen_i32(c),
        };
        c.key(&k);
        c.nontrivial = true;
        c.say(|| format!("k = {}", k));
        let b = m.int(k as i64);
        let w = [('+', m.add(&a.v, &b)), ('-', m.sub(&a.v, &b)), ('*', m.mul(&a.v, &b))];
        forms_are(&F::digit_forms(&a.x, k), &w)
    }));
    u.push(unit(nm::<F>("target-digit"), n / 4, 30, |c| {
        let i = F::info();
        let m = i.m;
        let k = gen_i32(c);
        c.key(&k);
        c.say(|| format!("k = {}", k));
        let b = m.int(k as i64);
        let t = gen_value(c, &i);
        c.say(|| format!("target = {:?}", t));
        result_class::<F>(c, &t);
        match c.below(3) {
            0 => {
                let a = op_of::<F>(c, "a", &m.sub(&t, &b));
                expect("a + k", &a.x.small_add(k), &t)
            }
            1 => {
                let a = op_of::<F>(c, "a", &m.add(&t, &b));
                expect("a - k", &a.x.small_sub(k), &t)
            }
            _ => {
                if k == 0 {
                    return Ok(());
                }
                let a = op_of::<F>(c, "a", &m.mul(&t, &m.inv(&b)));
                expect("a * k", &a.x.small_mul(k), &t)
            }
        }
    }));
    u.push(unit(nm::<F>("digit-chain"), n / 16, 16, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let (mut x, mut v) = (a.x, a.v);
        let len = 1 + c.below(20);
        for _ in 0..len {
            let k = gen_i32(c);
            let b = m.int(k as i64);
            match c.below(3) {
                0 => {
                    x.small_add_assign(k);
                    v = m.add(&v, &b);
                    c.say(|| format!("+ {}", k));
                }
                1 => {
                    x.small_sub_assign(k);
                    v = m.sub(&v, &b);
                    c.say(|| format!("- {}", k));
                }
                _ => {
                    x.small_mul_assign(k);
                    v = m.mul(&v, &b);
                    c.say(|| format!("* {}", k));
                }
            }
            c.key(&k);
            expect("chain", &x, &v)?;
        }
        Ok(())
    }));
}

// --------------------------------------------------------- F05, F06, F07

fn f05<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("inverse"), n, 300, |c| {
        let m = F::info().m;
        let a = op_nonzero::<F>(c, "a");
        let i = a.x.inverted();
        let w = m.inv(&a.v);
        result_class::<F>(c, &w);
        expect("inverse of a", &i, &w)?;
        expect("a * inverse of a", &(a.x * i), &one())
    }));
    u.push(unit(nm::<F>("divide"), n, 300, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = op_nonzero::<F>(c, "b");
        expect("a / b", &(a.x / b.x), &m.mul(&a.v, &m.inv(&b.v)))
    }));
    u.push(unit(nm::<F>("every-spelling"), n / 6, 1500, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = op_nonzero::<F>(c, "b");
        c.nontrivial = true;
        forms_are(&F::div_forms(&a.x, &b.x), &[('/', m.mul(&a.v, &m.inv(&b.v)))])?;
        forms_are(&F::div_forms(&b.x, &b.x), &[('/', one())])
    }));
    u.push(unit(nm::<F>("target-quotient"), n, 300, |c| {
        let i = F::info();
        let b = op_nonzero::<F>(c, "b");
        let t = gen_value(c, &i);
        result_class::<F>(c, &t);
        let a = op_of::<F>(c, "a", &i.m.mul(&t, &b.v));
        expect("a / b", &(a.x / b.x), &t)
    }));
}

fn f06<F: Fld>(u: &mut Us, n: usize) {
    fn judge<F: Fld>(c: &mut Ctx, a: &El<F>) -> Res {
        let m = F::info().m;
        let j = m.jacobi(&a.v);
        c.label(if j > 0 { "residue" } else { "non-residue" });
        let w = if j > 0 { one() } else { m.p.sub(&one()) };
        expect("Legendre symbol", &a.x.legendre(), &w)
    }
    u.push(unit(nm::<F>("legendre"), n, 300, |c| {
        let a = op_nonzero::<F>(c, "a");
        judge(c, &a)
    }));
    u.push(unit(nm::<F>("squares"), n, 300, |c| {
        // Known squares and known non-squares, independently of the oracle.
        let m = F::info().m;
        let b = op_nonzero::<F>(c, "b");
        let s = b.x.squared();
        expect("Legendre symbol of b^2", &s.legendre(), &one())?;
        let z = op_nonzero::<F>(c, "z");
        if m.jacobi(&z.v) < 0 {
            c.label("non-residue times a square");
            expect("Legendre symbol of z b^2", &(s * z.x).legendre(), &m.p.sub(&one()))?;
        }
        Ok(())
    }));
    u.push(unit(nm::<F>("small"), 1, 300, |c| {
        // The smallest integers and their negatives, all of them.
        let m = F::info().m;
        for k in 1..300u64 {
            for neg in [false, true] {
                let v = m.red(&Big::from_u64(k));
                let v = if neg { m.neg(&v) } else { v };
                let a = El { x: elem::<F>(&v), v, how: String::new(), lazy: false };
                c.key(&v);
                judge(c, &a).map_err(|e| format!("at {}{}: {}", if neg { "-" } else { "" }, k, e))?;
            }
        }
        c.nontrivial = true;
        Ok(())
    }));
}

fn f07<F: Fld>(u: &mut Us, n: usize) {
    fn judge<F: Fld>(a: &El<F>) -> Res {
        let m = F::info().m;
        let r = a.x.sqrt();
        let v = value(&r).map_err(|e| format!("square root: {}", e))?;
        let sq = m.mul(&v, &v);
        ck(sq == a.v, || format!("square root of {:?} is {:?}, whose square is {:?}", a.v, v, sq))?;
        expect("square of the root", &r.squared(), &a.v)
    }
    u.push(unit(nm::<F>("residue"), n, 300, |c| {
        let m = F::info().m;
        let a = op_nonzero::<F>(c, "a");
        // Where -1 is not a square, one of a and -a is a residue.
        let a = if m.jacobi(&a.v) > 0 {
            a
        } else if m.p.0[0] & 3 == 3 {
            op_of::<F>(c, "-a", &m.neg(&a.v))
        } else {
            c.label("replaced a non-residue by its square");
            op_of::<F>(c, "a^2", &m.mul(&a.v, &a.v))
        };
        judge(&a)
    }));
    u.push(unit(nm::<F>("square"), n, 300, |c| {
        let m = F::info().m;
        let b = op_nonzero::<F>(c, "b");
        let v = m.mul(&b.v, &b.v);
        let x = if c.flag() { b.x.squared() } else { gen_rep::<F>(c, &v) };
        let a = El { x, v, how: String::new(), lazy: true };
        if m.p.0[0] & 3 == 1 {
            // Which of the two branches of the 5-mod-8 formula applies.
            c.label(if m.jacobi(&b.v) > 0 { "fourth power" } else { "square, not a fourth power" });
        }
        judge(&a)
    }));
    u.push(unit(nm::<F>("small"), 1, 300, |c| {
        let m = F::info().m;
        for k in 1..300u64 {
            for neg in [false, true] {
                let v = m.red(&Big::from_u64(k));
                let v = if neg { m.neg(&v) } else { v };
                if m.jacobi(&v) > 0 {
                    c.key(&v);
                    judge(&El { x: elem::<F>(&v), v, how: String::new(), lazy: false })?;
                }
            }
        }
        c.nontrivial = true;
        Ok(())
    }));
}

// -------------------------------------------------------------------- F08

fn f08<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("roundtrip"), n, 2, |c| {
        let i = F::info();
        let v = gen_value(c, &i);
        c.key(&v);
        c.say(|| format!("integer {:?}", v));
        c.nontrivial = !v.is_zero();
        result_class::<F>(c, &v);
        let bytes = v.to_le(i.nbytes);
        let x = F::unpacked(&bytes);
        let mut y = x;
        let mut out = vec![0xa5u8; i.nbytes];
        y.pack(&mut out);
        ck(out == bytes, || format!("packs back to {:?}", Big::from_le(&out)))?;
        let mut out = vec![0x5au8; i.nbytes];
        x.pack_normalized(&mut out);
        ck(out == bytes, || format!("pack_normalized gives {:?}", Big::from_le(&out)))?;
        let mut y = x;
        let out = y.packed_vec();
        ck(out == bytes, || format!("packed() gives {:?}", Big::from_le(&out)))
    }));
    u.push(unit(nm::<F>("dirty-target"), n, 2, |c| {
        let i = F::info();
        let v = gen_value(c, &i);
        c.key(&v);
        let old = op::<F>(c, "old content");
        c.say(|| format!("integer {:?}", v));
        let bytes = v.to_le(i.nbytes);
        let mut x = old.x;
        x.unpack(&bytes);
        expect("unpacked over an old value", &x, &v)?;
        let mut out = vec![0x33u8; i.nbytes];
        x.pack_normalized(&mut out);
        ck(out == bytes, || format!("pack_normalized gives {:?}", Big::from_le(&out)))?;
        let f = F::unpacked(&bytes);
        // The element must also behave as v in arithmetic.
        let m = i.m;
        expect("x * 3 + old", &(x.small_mul(3) + old.x), &m.add(&m.mul(&v, &m.int(3)), &old.v))?;
        expect("f * x", &(f * x), &m.mul(&v, &v))
    }));
    u.push(unit(nm::<F>("canonical"), n, 2, |c| {
        let i = F::info();
        let a = op::<F>(c, "a");
        expect("a", &a.x, &a.v)?;
        let want = a.v.to_le(i.nbytes);
        let mut x = a.x;
        let got = x.packed_vec();
        ck(got == want, || format!("packed() gives {:?}", Big::from_le(&got)))?;
        // pack leaves its operand in normal form, standing for the same integer
        let mut x = a.x;
        let mut out = vec![0u8; i.nbytes];
        x.pack(&mut out);
        let mut again = vec![0xffu8; i.nbytes];
        x.pack_normalized(&mut again);
        ck(out == want && again == want, || {
            format!("pack gives {:?}, then pack_normalized {:?}", Big::from_le(&out), Big::from_le(&again))
        })?;
        ck(F::nbytes() as usize == i.nbytes, || format!("nbytes() = {}", F::nbytes()))
    }));
    u.push(unit(nm::<F>("each-bit"), 1, 300, |c| {
        let i = F::info();
        for k in 0..i.m.n {
            for comp in [false, true] {
                let v = Big::pow2(k);
                let v = if comp { i.m.p.sub(&one()).sub(&v.low(i.m.n)) } else { i.m.red(&v) };
                c.key(&v);
                let bytes = v.to_le(i.nbytes);
                let x = F::unpacked(&bytes);
                expect("single bit", &x, &v).map_err(|e| format!("bit {}: {}", k, e))?;
                let mut d = -F::one();
                d.unpack(&bytes);
                expect("single bit over -1", &d, &v).map_err(|e| format!("bit {}: {}", k, e))?;
                // Shift the bit to another place by arithmetic, to tie the bytes to values.
                expect("doubled", &(x + x), &i.m.add(&v, &v)).map_err(|e| format!("bit {}: {}", k, e))?;
            }
        }
        c.nontrivial = true;
        Ok(())
    }));
}

// -------------------------------------------------------------------- F09

fn normal_form<F: Fld>(what: &str, x: &F, v: &Big) -> Res {
    let i = F::info();
    let mut out = vec![0u8; i.nbytes];
    x.pack_normalized(&mut out);
    ck(out == v.to_le(i.nbytes), || {
        format!("{}: normal form holds {:?}, expected {:?}", what, Big::from_le(&out), v)
    })?;
    for k in 0..i.m.n {
        ck(x.bit_normalized(k) == v.bit(k), || format!("{}: bit {} of the normal form of {:?}", what, k, v))?;
    }
    let mut y: F = elem(v);
    y.normalize();
    let (s, t) = (format!("{:?}", x), format!("{:?}", y));
    ck(s == t, || format!("{}: stored as {} but {} by another route", what, s, t))
}

fn f09<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("normalize"), n, 8, |c| {
        let a = op::<F>(c, "a");
        let mut x = a.x;
        x.normalize();
        normal_form("normalized", &x, &a.v)?;
        let before = format!("{:?}", x);
        x.normalize();
        let after = format!("{:?}", x);
        ck(before == after, || format!("normalizing again: {} became {}", before, after))?;
        expect("normalized", &x, &a.v)
    }));
    u.push(unit(nm::<F>("boundary"), n, 8, |c| {
        // Values right at the modulus, 2^n and 0, reached by sums and differences.
        let i = F::info();
        let m = i.m;
        let near = match c.below(3) {
            0 => m.int(c.draw(2 * m.c + 6) as i64),
            1 => m.neg(&m.int(c.draw(2 * m.c + 6) as i64)),
            _ => m.sub(&m.int(c.draw(2 * m.c + 6) as i64), &m.int(c.draw(2 * m.c + 6) as i64)),
        };
        let mut a = op_of::<F>(c, "a", &near);
        for _ in 0..c.below(4) {
            let t = match c.below(3) {
                0 => m.int(c.draw(2 * m.c + 6) as i64),
                1 => m.neg(&m.int(c.draw(2 * m.c + 6) as i64)),
                _ => Big::ZERO,
            };
            let b = op_of::<F>(c, "b", &t);
            if c.flag() {
                a.x += b.x;
                a.v = m.add(&a.v, &t);
                c.say(|| "a += b".to_string());
            } else {
                a.x -= b.x;
                a.v = m.sub(&a.v, &t);
                c.say(|| "a -= b".to_string());
            }
        }
        c.nontrivial = true;
        let mut x = a.x;
        x.normalize();
        normal_form("normalized", &x, &a.v)
    }));
    u.push(unit(nm::<F>("then-compute"), n, 6, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let mut x = a.x;
        x.normalize();
        expect("norm(a) * b", &(x * b.x), &m.mul(&a.v, &b.v))?;
        expect("b - norm(a)", &(b.x - x), &m.sub(&b.v, &a.v))?;
        expect("norm(a) + b", &(x + b.x), &m.add(&a.v, &b.v))
    }));
}

// -------------------------------------------------------------------- F10

fn f10<F: Fld>(u: &mut Us, n: usize) {
    fn judge<F: Fld>(c: &mut Ctx, a: &El<F>, b: &El<F>) -> Res {
        let eq = a.v == b.v;
        c.label(if eq { "equal" } else { "different" });
        let (mut x, mut y) = (a.x, b.x);
        let r = x.normalize_eq(&mut y);
        ck(r == eq, || format!("normalize_eq says {} for {:?} and {:?}", r, a.v, b.v))?;
        expect("left after comparison", &x, &a.v)?;
        expect("right after comparison", &y, &b.v)?;
        let (mut x, mut y) = (a.x, b.x);
        let r = y.normalize_eq(&mut x);
        ck(r == eq, || format!("swapped normalize_eq says {} for {:?} and {:?}", r, b.v, a.v))?;
        let mut x = a.x;
        let mut y = b.x;
        y.normalize();
        let r = x.normalize_self_eq(&y);
        ck(r == eq, || format!("normalize_self_eq says {} for {:?} and {:?}", r, a.v, b.v))?;
        expect("left after comparison", &x, &a.v)?;
        expect("right after comparison", &y, &b.v)
    }
    u.push(unit(nm::<F>("equal"), n, 4, |c| {
        let a = op::<F>(c, "a");
        let v = a.v;
        let b = op_of::<F>(c, "b", &v);
        if is_lazy_form(&a.x) || is_lazy_form(&b.x) {
            c.label("equal values, at least one not in normal form");
            c.nontrivial = true;
        }
        judge(c, &a, &b)
    }));
    u.push(unit(nm::<F>("near"), n, 4, |c| {
        // Values that differ in one bit, in one word, by a small number, or by
        // exchanging two words.
        let i = F::info();
        let m = i.m;
        let a = op::<F>(c, "a");
        let w = match c.below(6) {
            4 | 5 => {
                c.label("differ in two words alike");
                balanced(c, &a.v, &i)
            }
            0 => {
                let k = c.below(m.n);
                let b = Big::pow2(k);
                if a.v.bit(k) { a.v.sub(&b) } else { m.red(&a.v.add(&b)) }
            }
            1 => {
                let at = i.word * c.below((m.n + i.word - 1) / i.word);
                let d = Big::from_u64(c.draw(0) >> (64 - i.word)).shl(at).low(m.n);
                m.add(&a.v, &m.red(&d))
            }
            2 => m.add(&a.v, &m.int(c.draw(600) as i64 - 300)),
            _ => m.red(&a.v.shr(i.word).or(&a.v.low(i.word).shl(m.n - i.word)).low(m.n)),
        };
        let b = op_of::<F>(c, "b", &w);
        c.nontrivial = true;
        judge(c, &a, &b)
    }));
    u.push(unit(nm::<F>("any"), n / 2, 4, |c| {
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        judge(c, &a, &b)
    }));
    u.push(unit(nm::<F>("each-bit"), 1, 300, |c| {
        let m = F::info().m;
        for k in 0..m.n {
            let v = m.red(&Big::pow2(k));
            c.key(&v);
            let z = El { x: F::zero(), v: Big::ZERO, how: String::new(), lazy: false };
            let b = El { x: elem::<F>(&v), v, how: String::new(), lazy: false };
            judge(c, &z, &b)?;
            let o = El { x: F::m_one(), v: m.neg(&one()), how: String::new(), lazy: false };
            let v2 = m.sub(&o.v, &v);
            let b = El { x: elem::<F>(&v2), v: v2, how: String::new(), lazy: false };
            judge(c, &o, &b)?;
        }
        c.nontrivial = true;
        Ok(())
    }));
}

// -------------------------------------------------------------------- F11

fn f11<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("bits"), n, 10, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        ck(F::nbits() == m.n, || format!("nbits() = {}", F::nbits()))?;
        let mut z = a.x;
        z.normalize();
        for k in 0..m.n {
            ck(z.bit_normalized(k) == a.v.bit(k), || {
                format!("bit_normalized({}) of {:?} is {}", k, a.v, !a.v.bit(k))
            })?;
        }
        // Bits in an arbitrary order, each read from a fresh copy or in sequence.
        let fresh = c.flag();
        let mut x = a.x;
        for _ in 0..12 {
            let k = match c.below(4) {
                0 => m.n - 1 - c.below(4),
                1 => (c.below(20) * F::info().word / 2 + c.below(3)).saturating_sub(1) % m.n,
                _ => c.below(m.n),
            };
            c.key(&k);
            if fresh {
                x = a.x;
            }
            let b = x.bit(k);
            ck(b == a.v.bit(k), || format!("bit({}) of {:?} is {}", k, a.v, b))?;
            if !fresh {
                expect("element after reading a bit", &x, &a.v)?;
            }
        }
        Ok(())
    }));
    u.push(unit(nm::<F>("each-bit"), 1, 300, |c| {
        let m = F::info().m;
        for k in 0..m.n {
            let v = m.red(&Big::pow2(k));
            c.key(&v);
            let x = elem::<F>(&v);
            let nv = m.sub(&m.p.sub(&one()), &v);
            let y = elem::<F>(&nv);
            for j in 0..m.n {
                ck(x.bit_normalized(j) == v.bit(j), || format!("bit_normalized({}) of 2^{}", j, k))?;
                ck(y.bit_normalized(j) == nv.bit(j), || format!("bit_normalized({}) of -1-2^{}", j, k))?;
            }
            let mut z = x;
            ck(z.bit(k) == v.bit(k), || format!("bit({}) of 2^{}", k, k))?;
        }
        c.nontrivial = true;
        Ok(())
    }));
}

// -------------------------------------------------------------------- F12

fn f12<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("and-or"), n, 6, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let and = m.red(&a.v.and(&b.v));
        let or = m.red(&a.v.or(&b.v));
        c.say(|| format!("and = {:?}, or = {:?}", and, or));
        let (mut na, mut nb) = (a.x, b.x);
        na.normalize();
        nb.normalize();

        let mut x = na;
        x.normalized_bitand(&nb);
        expect("normalized and", &x, &and)?;
        let mut x = a.x;
        x.normalize_self_bitand(&nb);
        expect("self-normalizing and", &x, &and)?;
        let (mut x, mut y) = (a.x, b.x);
        x.normalize_bitand(&mut y);
        expect("normalizing and", &x, &and)?;
        expect("right operand of the normalizing and", &y, &b.v)?;

        let mut x = na;
        x.normalized_bitor(&nb);
        expect("normalized or", &x, &or)?;
        let mut x = a.x;
        x.normalize_self_bitor(&nb);
        expect("self-normalizing or", &x, &or)?;
        let (mut x, mut y) = (a.x, b.x);
        x.normalize_bitor(&mut y);
        expect("normalizing or", &x, &or)?;
        expect("right operand of the normalizing or", &y, &b.v)
    }));
    u.push(unit(nm::<F>("mask"), n, 6, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let bit = c.flag();
        c.key(&bit);
        c.say(|| format!("mask bit {}", bit));
        c.label(if bit { "mask of ones" } else { "mask of zeros" });
        let refill = c.flag();
        let mk = |bit: bool| {
            if refill {
                // fill() over an old value
                let mut k = b.x;
                k.fill(bit);
                k
            } else {
                F::filled(bit)
            }
        };
        let (t, f) = (mk(bit), mk(!bit));
        let want = if bit { a.v } else { Big::ZERO };
        let mut x = a.x;
        x.normalized_bitand(&t);
        expect("a and mask", &x, &want)?;
        let mut x = a.x;
        x.normalize_self_bitand(&t);
        expect("norm(a) and mask", &x, &want)?;
        // or with nothing, and or of two masked values: a select
        let mut x = a.x;
        x.normalized_bitor(&F::filled(false));
        expect("a or zeros", &x, &a.v)?;
        let (mut x, mut y) = (a.x, b.x);
        x.normalized_bitand(&t);
        y.normalized_bitand(&f);
        x.normalized_bitor(&y);
        let want = if bit { a.v } else { b.v };
        expect("select", &x, &want)?;
        // ... and the selected element computes like the original.
        expect("selected * b", &(x * b.x), &m.mul(&want, &b.v))?;
        expect("selected - a", &(x - a.x), &m.sub(&want, &a.v))?;
        let mut y = b.x;
        y.normalized_bitand(&f);
        let mut z = a.x;
        z.normalize();
        z.normalized_bitand(&t);
        y.normalize_self_bitor(&z);
        expect("select through the self-normalizing or", &y, &want)?;
        // the mask types can be made both ways
        let mut k = <F::Mask as PrimeFieldMask>::filled(!bit);
        PrimeFieldMask::fill(&mut k, bit);
        let k2 = <F::Mask as PrimeFieldMask>::filled(bit);
        ck(mask_bytes(&k) == mask_bytes(&k2), || "a refilled mask differs from a filled one".to_string())
    }));
}

fn mask_bytes<M: Copy>(m: &M) -> Vec<u64> {
    let k = std::mem::size_of::<M>() / 8;
    let p = m as *const M as *const u64;
    (0..k).map(|i| unsafe { std::ptr::read_unaligned(p.add(i)) }).collect()
}

// -------------------------------------------------------------------- F13

fn forms_agree<F: Fld>(forms: &[(&'static str, char, F)]) -> Res {
    let mut first: std::collections::BTreeMap<char, (&'static str, Big)> = Default::default();
    for (name, kind, x) in forms {
        let v = value(x).map_err(|e| format!("{}: {}", name, e))?;
        match first.get(kind) {
            None => {
                first.insert(*kind, (name, v));
            }
            Some((n0, v0)) => {
                if v != *v0 {
                    return Err(format!("{} gives {:?} but {} gives {:?}", n0, v0, name, v));
                }
            }
        }
    }
    Ok(())
}

fn f13<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("binary-forms"), n, 10, |c| {
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        c.nontrivial = true;
        let (x, y) = (a.x, b.x);
        let f = F::binary_forms(&x, &y);
        forms_agree(&f)?;
        ck(raw(&x) == raw(&a.x) && raw(&y) == raw(&b.x), || "an operand changed".to_string())?;
        // the same element on both sides
        forms_agree(&F::binary_forms(&x, &x))
    }));
    u.push(unit(nm::<F>("digit-forms"), n, 16, |c| {
        let a = op::<F>(c, "a");
        let k = gen_i32(c);
        c.key(&k);
        c.nontrivial = true;
        c.say(|| format!("k = {}", k));
        let x = a.x;
        forms_agree(&F::digit_forms(&x, k))?;
        ck(raw(&x) == raw(&a.x), || "an operand changed".to_string())?;
        // and the machine integer spells the same thing as the element
        let kk = elem::<F>(&F::info().m.int(k as i64));
        let v = value(&x.small_mul(k))?;
        expect("x * k as an element", &(x * kk), &v)?;
        let v = value(&x.small_add(k))?;
        expect("x + k as an element", &(x + kk), &v)?;
        let v = value(&x.small_sub(k))?;
        expect("x - k as an element", &(x - kk), &v)
    }));
    u.push(unit(nm::<F>("unary-forms"), n / 8, 40, |c| {
        let a = op::<F>(c, "a");
        c.nontrivial = true;
        let x = a.x;
        let mut f: Vec<(&'static str, char, F)> = Vec::new();
        f.push(("squared", 's', x.squared()));
        let mut z = x;
        z.square();
        f.push(("square", 's', z));
        f.push(("x * x", 's', x * x));
        f.push(("-x", 'n', -x));
        f.push(("0 - x", 'n', F::zero() - x));
        f.push(("x * -1", 'n', x.small_mul(-1)));
        f.push(("x * M_ONE", 'n', x * F::m_one()));
        f.push(("x + x", 'd', x + x));
        f.push(("x * 2", 'd', x.small_mul(2)));
        f.push(("x - (-x)", 'd', x - (-x)));
        forms_agree(&f)?;
        let (_, y) = (0, x);
        let _ = y.legendre();
        let _ = y.squared();
        ck(raw(&x) == raw(&a.x) && raw(&y) == raw(&a.x), || "an operand changed".to_string())
    }));
    u.push(unit(nm::<F>("division-forms"), n / 100, 1500, |c| {
        let a = op::<F>(c, "a");
        let b = op_nonzero::<F>(c, "b");
        c.nontrivial = true;
        let (x, y) = (a.x, b.x);
        forms_agree(&F::div_forms(&x, &y))?;
        ck(raw(&x) == raw(&a.x) && raw(&y) == raw(&b.x), || "an operand changed".to_string())
    }));
    u.push(unit(nm::<F>("other-forms"), n / 2, 10, |c| {
        let i = F::info();
        let a = op::<F>(c, "a");
        let old = op::<F>(c, "old");
        c.nontrivial = true;
        let (mut p, mut q) = (a.x, a.x);
        let mut out = vec![0u8; i.nbytes];
        p.pack(&mut out);
        let k = q.packed_vec();
        ck(out == k, || "pack and packed() differ".to_string())?;
        let mut z = old.x;
        z.unpack(&out);
        forms_agree(&[("unpacked", 'u', F::unpacked(&out)), ("unpack", 'u', z)])?;
        let bit = c.flag();
        let mut z = old.x;
        z.fill(bit);
        ck(raw(&z) == raw(&F::filled(bit)), || format!("fill({}) and filled({}) differ", bit, bit))
    }));
}

// -------------------------------------------------------------------- F14

fn f14<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("hex"), n, 12, |c| {
        let i = F::info();
        let a = op::<F>(c, "a");
        c.nontrivial |= !a.v.is_zero();
        let mut want = String::new();
        for b in a.v.to_le(i.nbytes).iter().rev() {
            want.push_str(&format!("{:02x}", b));
        }
        let got = format!("{:x}", a.x);
        ck(got == want, || format!("{{:x}} shows {}, expected {}", got, want))?;
        let got = format!("{:X}", a.x);
        let want = want.to_uppercase();
        ck(got == want, || format!("{{:X}} shows {}, expected {}", got, want))?;
        expect("element after formatting", &a.x, &a.v)
    }));
}

// -------------------------------------------------------------------- F15

/// A random source: some chosen words, then a good generator.
struct Feed {
    head: Vec<u32>,
    at: usize,
    tail: Prng,
}

impl Rng for Feed {
    fn next_u32(&mut self) -> u32 {
        self.at += 1;
        if self.at <= self.head.len() {
            self.head[self.at - 1]
        } else {
            (self.tail.next() >> 32) as u32
        }
    }
}

fn f15<F: Fld>(u: &mut Us, n: usize) {
    fn feed<F: Fld>(c: &mut Ctx) -> (Vec<u32>, u64) {
        if c.flag() {
            // 64-bit words around those of the modulus: the values that a draw from
            // a range maps to its ends, in step with the words or not.
            let p = raw(&F::modulus());
            let skip = c.below(p.len());
            let same = c.below(7);
            let mut head = Vec::new();
            for k in 0..3 * p.len() {
                let w = p[(k + skip) % p.len()] as u64;
                let kind = if c.chance(1, 8) { c.below(7) } else { same };
                let x = match kind {
                    0 => w,
                    1 => w.wrapping_sub(1),
                    2 => (1u64 << (64 - w.leading_zeros())) - 1,
                    3 => 0,
                    4 => w.wrapping_add(w.wrapping_mul(1 + c.draw(7))),
                    5 => w.wrapping_sub(1 + c.draw(4)),
                    _ => c.draw(0),
                };
                let x = if c.chance(1, 6) { x.reverse_bits() } else { x };
                head.push((x >> 32) as u32);
                head.push(x as u32);
            }
            return (head, c.draw(0));
        }
        let len = c.below(40);
        let style = c.below(4);
        let head = (0..len)
            .map(|_| match if style == 3 { c.below(3) } else { style } {
                0 => [0, 1, u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32][c.below(6)],
                1 => u32::MAX << c.below(32),
                _ => c.draw(1 << 32) as u32,
            })
            .collect();
        (head, c.draw(0))
    }
    u.push(unit(nm::<F>("canonical"), n, 6, |c| {
        let i = F::info();
        let (head, seed) = feed::<F>(c);
        c.key(&head);
        c.key(&seed);
        c.nontrivial = true;
        c.say(|| format!("source: {:08x?} then PRNG {:x}", head, seed));
        let mut r = Feed { head: head.clone(), at: 0, tail: Prng::new(seed) };
        let mut r2 = Feed { head, at: 0, tail: Prng::new(seed) };
        for _ in 0..3 {
            let x = F::rand(&mut r);
            let v = value(&x)?;
            let mut out = vec![0u8; i.nbytes];
            x.pack_normalized(&mut out);
            let w = Big::from_le(&out);
            ck(w == v, || format!("drawn element holds {:?} but stands for {:?}", w, v))?;
            let mut y = x;
            y.normalize();
            ck(raw(&y) == raw(&x), || format!("drawn element {:?} is not in normal form", x))?;
            let z = F::rand(&mut r2);
            expect("drawn again from the same source", &z, &v)?;
        }
        ck(r.at == r2.at, || "a different number of words was used".to_string())
    }));
    u.push(unit(nm::<F>("spread"), (n / 400).max(4), 2000, |c| {
        let i = F::info();
        let seed = c.draw(0);
        c.key(&seed);
        c.nontrivial = true;
        c.say(|| format!("PRNG {:x}", seed));
        let mut r = Feed { head: Vec::new(), at: 0, tail: Prng::new(seed) };
        let mut all = Big::ZERO;
        let mut none = Big::pow2(i.m.n).sub(&one());
        let mut seen = std::collections::HashSet::new();
        let mut ones = vec![0u32; i.m.n];
        let mut column = vec![[0u64; 4]; i.m.n];
        let draws = 256;
        for j in 0..draws {
            let v = value(&F::rand(&mut r))?;
            all = all.or(&v);
            none = none.and(&v);
            ck(seen.insert(v), || format!("{:?} was drawn twice in {} draws", v, draws))?;
            for k in 0..i.m.n {
                ones[k] += v.bit(k) as u32;
                column[k][j / 64] |= (v.bit(k) as u64) << (j % 64);
            }
        }
        for k in 0..i.m.n {
            // A bit that a fair source would leave within 64..192 of 256 draws,
            // but for a chance of about 2^-50.
            ck(ones[k] > 64 && ones[k] < 192, || {
                format!("bit {} is set in {} of {} draws", k, ones[k], draws)
            })?;
        }
        // No bit always equals another one or its complement (chance about 2^-237).
        let mut columns = std::collections::HashMap::new();
        for k in 0..i.m.n {
            let flip = if column[k][0] & 1 == 1 { u64::MAX } else { 0 };
            let key: Vec<u64> = column[k].iter().map(|w| w ^ flip).collect();
            if let Some(j) = columns.insert(key, k) {
                return Err(format!("bits {} and {} are tied to each other in {} draws", j, k, draws));
            }
        }
        Ok(())
    }));
}

// -------------------------------------------------------------------- F16

fn history<F: Fld>(c: &mut Ctx, maxlen: usize) -> Res {
    let i = F::info();
    let m = i.m;
    const R: usize = 4;
    let mut x: Vec<F> = Vec::new();
    let mut v: Vec<Big> = Vec::new();
    for k in 0..R {
        let e = operand::<F>(c, "r", 0);
        c.say(|| format!("r{} = above", k));
        x.push(e.x);
        v.push(e.v);
    }
    let len = 1 + c.below(maxlen);
    let (mut muls, mut lazies) = (0, 0);
    for _ in 0..len {
        let d = c.below(R);
        let s = c.below(R);
        let s2 = c.below(R);
        let kind = c.below(24);
        c.key(&(d, s, s2, kind));
        let text: String;
        match kind {
            0 | 1 => {
                x[d] = x[s] + x[s2];
                v[d] = m.add(&v[s], &v[s2]);
                text = format!("r{} = r{} + r{}", d, s, s2);
            }
            2 | 3 => {
                x[d] = x[s] - x[s2];
                v[d] = m.sub(&v[s], &v[s2]);
                text = format!("r{} = r{} - r{}", d, s, s2);
            }
            4 | 5 => {
                x[d] = x[s] * x[s2];
                v[d] = m.mul(&v[s], &v[s2]);
                muls += 1;
                text = format!("r{} = r{} * r{}", d, s, s2);
            }
            6 => {
                let y = x[s];
                x[d] += y;
                v[d] = m.add(&v[d], &v[s]);
                text = format!("r{} += r{}", d, s);
            }
            7 => {
                let y = x[s];
                x[d] -= y;
                v[d] = m.sub(&v[d], &v[s]);
                text = format!("r{} -= r{}", d, s);
            }
            8 => {
                let y = x[s];
                x[d] *= y;
                v[d] = m.mul(&v[d], &v[s]);
                muls += 1;
                text = format!("r{} *= r{}", d, s);
            }
            9 => {
                x[d] = -x[s];
                v[d] = m.neg(&v[s]);
                text = format!("r{} = -r{}", d, s);
            }
            10 => {
                x[d].square();
                v[d] = m.mul(&v[d], &v[d]);
                muls += 1;
                text = format!("r{} squared in place", d);
            }
            11 => {
                x[d] = x[s].squared();
                v[d] = m.mul(&v[s], &v[s]);
                muls += 1;
                text = format!("r{} = r{}^2", d, s);
            }
            12 | 13 | 14 => {
                let k = gen_i32(c);
                let b = m.int(k as i64);
                c.key(&k);
                match kind {
                    12 => {
                        x[d].small_add_assign(k);
                        v[d] = m.add(&v[d], &b);
                        text = format!("r{} += {}i32", d, k);
                    }
                    13 => {
                        x[d].small_sub_assign(k);
                        v[d] = m.sub(&v[d], &b);
                        text = format!("r{} -= {}i32", d, k);
                    }
                    _ => {
                        x[d].small_mul_assign(k);
                        v[d] = m.mul(&v[d], &b);
                        text = format!("r{} *= {}i32", d, k);
                    }
                }
            }
            15 => {
                x[d].normalize();
                text = format!("r{}.normalize()", d);
            }
            16 => {
                let b = value(&x[s])?;
                x[d].unpack(&b.to_le(i.nbytes));
                v[d] = v[s];
                text = format!("r{} = unpack(pack(r{}))", d, s);
            }
            17 => {
                let w = gen_value(c, &i);
                c.key(&w);
                x[d].unpack(&w.to_le(i.nbytes));
                v[d] = w;
                text = format!("r{} = unpack({:?})", d, w);
            }
            18 => {
                let bit = c.flag();
                let (mut a, mut b) = (x[s], x[s2]);
                a.normalized_bitand(&F::filled(bit));
                b.normalized_bitand(&F::filled(!bit));
                a.normalized_bitor(&b);
                x[d] = a;
                v[d] = if bit { v[s] } else { v[s2] };
                text = format!("r{} = {} ? r{} : r{}", d, bit, s, s2);
            }
            19 => {
                if s != s2 {
                    let (mut a, mut b) = (x[s], x[s2]);
                    let r = a.normalize_eq(&mut b);
                    if r != (v[s] == v[s2]) {
                        return Err(format!("r{} == r{} says {}", s, s2, r));
                    }
                    x[s] = a;
                    x[s2] = b;
                }
                text = format!("r{} == r{}", s, s2);
            }
            20 => {
                let k = c.below(m.n);
                let b = x[d].bit(k);
                if b != v[d].bit(k) {
                    return Err(format!("bit {} of r{} ({:?}) reads {}", k, d, v[d], b));
                }
                text = format!("r{}.bit({})", d, k);
            }
            21 => {
                // a power-of-two shift by repeated doubling
                let k = 1 + c.below(12);
                for _ in 0..k {
                    let y = x[d];
                    x[d] += y;
                    v[d] = m.add(&v[d], &v[d]);
                }
                text = format!("r{} doubled {} times", d, k);
            }
            22 => {
                let (mut a, mut b) = (x[s], x[s2]);
                let and = c.flag();
                if and {
                    a.normalize_bitand(&mut b);
                    v[d] = m.red(&v[s].and(&v[s2]));
                } else {
                    a.normalize_bitor(&mut b);
                    v[d] = m.red(&v[s].or(&v[s2]));
                }
                x[d] = a;
                text = format!("r{} = r{} {} r{}", d, s, if and { "and" } else { "or" }, s2);
            }
            _ => {
                x[d] = [F::zero(), F::one(), F::m_one(), F::modulus()][s];
                v[d] = [Big::ZERO, one(), m.neg(&one()), Big::ZERO][s];
                text = format!("r{} = {}", d, ["zero()", "one()", "m_one()", "modulus()"][s]);
            }
        }
        c.say(|| text.clone());
        if is_lazy_form(&x[d]) {
            lazies += 1;
        }
        expect(&text, &x[d], &v[d])?;
    }
    for k in 0..R {
        expect("at the end", &x[k], &v[k]).map_err(|e| format!("r{} {}", k, e))?;
    }
    if muls > 0 && lazies > 1 {
        c.nontrivial = true;
    }
    c.label(if len > 20 { "more than 20 operations" } else { "up to 20 operations" });
    Ok(())
}

fn f16<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("short"), n, 20, |c| history::<F>(c, 10)));
    u.push(unit(nm::<F>("history"), n / 4, 60, |c| history::<F>(c, 60)));
    u.push(unit(nm::<F>("long"), n / 40, 400, |c| history::<F>(c, 400)));
}

// -------------------------------------------------------------------- F17

/// A chain of operations whose results are only looked at in packed form at
/// the end: run in a checked and in an unchecked build.
fn f17<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("extremes"), n, 40, |c| {
        let i = F::info();
        let m = i.m;
        let e = op::<F>(c, "start");
        let (mut x, mut v) = (e.x, e.v);
        let ext = [i32::MIN, i32::MAX, i32::MIN + 1, -1, 1, 0x4000_0000, -0x4000_0000];
        let len = 1 + c.below(24);
        for _ in 0..len {
            let kind = c.below(10);
            let k = if c.flag() { ext[c.below(ext.len())] } else { gen_i32(c) };
            let b = m.int(k as i64);
            c.key(&(kind, k));
            match kind {
                0 => { x.small_mul_assign(k); v = m.mul(&v, &b); }
                1 => { x.small_add_assign(k); v = m.add(&v, &b); }
                2 => { x.small_sub_assign(k); v = m.sub(&v, &b); }
                3 => { x = -x; v = m.neg(&v); }
                4 => { x.square(); v = m.mul(&v, &v); }
                5 => { let y = x; x += y; v = m.add(&v, &v); }
                6 => { x *= e.x; v = m.mul(&v, &e.v); }
                7 => { x = e.x - x; v = m.sub(&e.v, &v); }
                8 => { x -= F::modulus(); }
                _ => { x += F::m_one(); v = m.sub(&v, &one()); }
            }
            c.say(|| format!("operation {} with {}", kind, k));
        }
        c.nontrivial = true;
        c.digest(&v);
        expect("after the chain", &x, &v)
    }));
    u.push(unit(nm::<F>("everything"), n / 40, 2500, |c| {
        // Every operation of the interface once on the same operands.
        let i = F::info();
        let m = i.m;
        let a = op::<F>(c, "a");
        let b = op_nonzero::<F>(c, "b");
        let k = gen_i32(c);
        c.nontrivial = true;
        for (_, _, r) in F::binary_forms(&a.x, &b.x) {
            c.digest(&value(&r)?);
        }
        for (_, _, r) in F::digit_forms(&a.x, k) {
            c.digest(&value(&r)?);
        }
        c.digest(&value(&(a.x / b.x))?);
        c.digest(&value(&b.x.inverted())?);
        c.digest(&value(&b.x.legendre())?);
        let s = b.x.squared();
        let r = s.sqrt();
        expect("square of the root of b^2", &r.squared(), &m.mul(&b.v, &b.v))?;
        // Outside the documented domain these give no particular value, but
        // they must not panic.
        let z = a.x - a.x;
        let _ = value(&z.inverted());
        let _ = value(&z.legendre());
        let _ = value(&z.sqrt());
        let _ = value(&a.x.sqrt());
        let _ = format!("{:x} {:X} {:?}", a.x, b.x, a.x);
        let (mut x, mut y) = (a.x, b.x);
        let _ = x.normalize_eq(&mut y);
        for j in 0..m.n {
            if x.bit(j) != a.v.bit(j) {
                return Err(format!("bit {}", j));
            }
        }
        c.digest(&value(&a.x)?);
        Ok(())
    }));
    u.push(unit(nm::<F>("history"), n / 8, 60, |c| history::<F>(c, 60)));
}

// -------------------------------------------------------------------- F19

fn f19<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("values"), 1, 300, |c| {
        let i = F::info();
        let m = i.m;
        let pm1 = m.p.sub(&one());
        c.nontrivial = true;
        c.key(&m.p);
        let cs = F::consts();
        for (what, x, v) in [
            ("ZERO", cs[0], Big::ZERO),
            ("ONE", cs[1], one()),
            ("M_ONE", cs[2], pm1),
            ("zero()", F::zero(), Big::ZERO),
            ("one()", F::one(), one()),
            ("m_one()", F::m_one(), pm1),
        ] {
            expect(what, &x, &v)?;
            normal_form(what, &x, &v)?;
        }
        if let Some(h) = F::m_half() {
            let v = m.p.sub(&one()).shr(1); // -1/2 = (p-1)/2
            expect("M_HALF", &h, &v)?;
            normal_form("M_HALF", &h, &v)?;
        }
        for (what, x) in [("MODULUS", cs[3]), ("modulus()", F::modulus())] {
            expect(what, &x, &Big::ZERO)?;
            // Its stored integer is the modulus itself, bit by bit.
            for k in 0..m.n {
                ck(x.bit_normalized(k) == m.p.bit(k), || format!("bit {} of {}", k, what))?;
            }
            let mut out = vec![0u8; i.nbytes];
            x.pack_normalized(&mut out);
            ck(Big::from_le(&out) == m.p, || format!("{} holds {:?}", what, Big::from_le(&out)))?;
        }
        ck(F::nbits() == m.n, || format!("nbits() = {}", F::nbits()))?;
        ck(F::nbytes() as usize == i.nbytes, || format!("nbytes() = {}", F::nbytes()))
    }));
    u.push(unit(nm::<F>("laws"), n, 10, |c| {
        let m = F::info().m;
        let a = op::<F>(c, "a");
        c.nontrivial = true;
        for md in [F::modulus(), F::consts()[3]] {
            expect("a + MODULUS", &(a.x + md), &a.v)?;
            expect("a - MODULUS", &(a.x - md), &a.v)?;
            expect("MODULUS - a", &(md - a.x), &m.neg(&a.v))?;
            expect("a * MODULUS", &(a.x * md), &Big::ZERO)?;
        }
        expect("a * ONE", &(a.x * F::consts()[1]), &a.v)?;
        expect("a * M_ONE", &(a.x * F::consts()[2]), &m.neg(&a.v))?;
        expect("a + ZERO", &(a.x + F::consts()[0]), &a.v)?;
        expect("a * ZERO", &(a.x * F::zero()), &Big::ZERO)?;
        expect("a + M_ONE", &(a.x + F::m_one()), &m.sub(&a.v, &one()))?;
        if let Some(h) = F::m_half() {
            let t = a.x * h;
            expect("a * M_HALF * -2", &t.small_mul(-2), &a.v)?;
        }
        Ok(())
    }));
}

// ------------------------------------------------------------------ table

// -------------------------------------------------------------------- F20

fn f20<F: Fld>(u: &mut Us, n: usize) {
    u.push(unit(nm::<F>("one"), n, 8, |c| {
        let i = F::info();
        let a = op::<F>(c, "a");
        let mut x = a.x;
        let how = match c.below(4) {
            0 => {
                let mut out = vec![0x77u8; i.nbytes];
                x.pack(&mut out);
                "pack"
            }
            1 => {
                x.packed_vec();
                "packed"
            }
            2 => {
                let k = c.below(i.m.n);
                x.bit(k);
                "bit"
            }
            _ => {
                x = if c.flag() { F::unpacked(&a.v.to_le(i.nbytes)) } else { x };
                x.unpack(&a.v.to_le(i.nbytes));
                "unpack"
            }
        };
        c.label(how);
        c.say(|| how.to_string());
        normal_form(how, &x, &a.v)
    }));
    u.push(unit(nm::<F>("two"), n, 12, |c| {
        let i = F::info();
        let a = op::<F>(c, "a");
        let b = partner_of::<F>(c, &a);
        let (mut x, mut y) = (a.x, b.x);
        let how = c.below(8);
        let and = a.v.and(&b.v);
        let or = a.v.or(&b.v);
        let fits = or.lt(&i.m.p);
        let name = match how {
            0 => {
                x.normalize_eq(&mut y);
                "normalize_eq"
            }
            1 => {
                y.normalize();
                x.normalize_self_eq(&y);
                "normalize_self_eq"
            }
            2 => {
                x.normalize_self_eq(&y);
                "normalize_self_eq (right side not normal)"
            }
            3 | 4 => {
                if how == 3 {
                    x.normalize_bitand(&mut y);
                } else {
                    y.normalize();
                    x.normalize_self_bitand(&y);
                }
                "bitwise and"
            }
            5 | 6 => {
                if how == 5 {
                    x.normalize_bitor(&mut y);
                } else {
                    y.normalize();
                    x.normalize_self_bitor(&y);
                }
                "bitwise or"
            }
            _ => {
                x.normalize();
                y.normalize();
                if c.flag() {
                    x.normalized_bitand(&y);
                    c.label("normalized and");
                    normal_form("normalized and", &x, &and)?;
                } else {
                    x.normalized_bitor(&y);
                    c.label("normalized or");
                    if fits {
                        normal_form("normalized or", &x, &or)?;
                    }
                }
                x = a.x;
                x.normalize();
                "normalized bitwise operation"
            }
        };
        c.label(name);
        c.say(|| name.to_string());
        match how {
            3 | 4 => normal_form(name, &x, &and)?,
            5 | 6 if fits => normal_form(name, &x, &or)?,
            5 | 6 => {}
            _ => normal_form(name, &x, &a.v)?,
        }
        if how == 2 {
            expect("right side", &y, &b.v)
        } else {
            normal_form(name, &y, &b.v)
        }
    }));
}

// -------------------------------------------------------------------- F21

fn f21<F: Fld>(u: &mut Us, n: usize) {
    fn tail(c: &mut Ctx, len: usize) -> Vec<u8> {
        let style = c.below(3);
        (0..len)
            .map(|_| match style {
                0 => c.draw(255) as u8,
                1 => 0xff,
                _ => 0,
            })
            .collect()
    }
    u.push(unit(nm::<F>("pack"), n, 3, |c| {
        let i = F::info();
        let a = op::<F>(c, "a");
        let (before, after) = (c.below(9) as usize, c.below(70) as usize);
        let old = tail(c, before + i.nbytes + after);
        c.key(&(before, after));
        c.say(|| format!("{} bytes before, {} after", before, after));
        c.label(if after > 0 { "longer buffer" } else { "exact buffer" });
        c.nontrivial |= after > 0;
        let mut buf = old.clone();
        let mut x = a.x;
        x.pack(&mut buf[before..]);
        let same = |b: &[u8]| {
            b[..before] == old[..before] && b[before + i.nbytes..] == old[before + i.nbytes..]
        };
        ck(same(&buf), || "pack wrote beyond its bytes".to_string())?;
        ck(buf[before..before + i.nbytes] == a.v.to_le(i.nbytes)[..], || "pack wrote another encoding".to_string())?;
        let mut buf = old.clone();
        x.pack_normalized(&mut buf[before..]);
        ck(same(&buf), || "pack_normalized wrote beyond its bytes".to_string())?;
        ck(buf[before..before + i.nbytes] == a.v.to_le(i.nbytes)[..], || "pack_normalized wrote another encoding".to_string())
    }));
    u.push(unit(nm::<F>("unpack"), n, 3, |c| {
        let i = F::info();
        let v = gen_value(c, &i);
        let old = op::<F>(c, "old content");
        let after = c.below(70) as usize;
        c.key(&(v, after));
        c.say(|| format!("{:?} followed by {} bytes", v, after));
        c.label(if after > 0 { "longer buffer" } else { "exact buffer" });
        c.nontrivial |= after > 0;
        let mut buf = v.to_le(i.nbytes);
        buf.extend(tail(c, after));
        let copy = buf.clone();
        let x = F::unpacked(&buf);
        let mut y = old.x;
        y.unpack(&buf);
        ck(buf == copy, || "the encoding changed".to_string())?;
        normal_form("unpacked", &x, &v)?;
        normal_form("unpack", &y, &v)
    }));
    u.push(unit(nm::<F>("row"), n / 4, 20, |c| {
        // Several encodings side by side in one buffer, written in any order.
        let i = F::info();
        let k = 2 + c.below(4) as usize;
        let mut els = Vec::new();
        for _ in 0..k {
            els.push(op::<F>(c, "e"));
        }
        let back = c.flag();
        c.nontrivial = true;
        let mut buf = vec![0u8; k * i.nbytes];
        for j in 0..k {
            // Written from the last to the first, an encoding must not disturb the next one.
            let j = if back { k - 1 - j } else { j };
            let mut x = els[j].x;
            if back {
                x.pack(&mut buf[j * i.nbytes..]);
            } else {
                x.pack(&mut buf[j * i.nbytes..(j + 1) * i.nbytes]);
            }
        }
        for j in 0..k {
            let x = F::unpacked(&buf[j * i.nbytes..]);
            expect("element of the row", &x, &els[j].v)?;
        }
        Ok(())
    }));
}

// -------------------------------------------------------------------- F22

/// Takes text up to a limit, then fails.
struct Sink {
    room: usize,
    text: String,
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

fn f22<F: Fld>(u: &mut Us, n: usize) {
    use std::fmt::Write;
    u.push(unit(nm::<F>("debug"), n, 8, |c| {
        let i = F::info();
        let m = i.m;
        let a = op::<F>(c, "a");
        let words = raw(&a.x);
        // The stored words, signed, stand for the value.
        let mut sum = Big::ZERO;
        for w in words.iter().rev() {
            sum = m.mul(&sum, &m.red(&Big::pow2(i.word)));
            sum = m.add(&sum, &m.int(*w as i64));
        }
        ck(sum == a.v, || format!("the stored words stand for {:?}, not {:?}", sum, a.v))?;
        let text = format!("{:?}", a.x);
        let list: Vec<String> = words.iter().map(|w| format!("{:x}", w)).collect();
        let want = format!("Mod{}: [ {} ]", &i.name[3..], list.join(", "));
        ck(text == want, || format!("{{:?}} shows {}, expected {}", text, want))?;
        ck(raw(&a.x) == words, || "formatting changed the stored words".to_string())
    }));
    u.push(unit(nm::<F>("failing-sink"), n, 12, |c| {
        let a = op::<F>(c, "a");
        let words = raw(&a.x);
        let kind = c.below(3);
        let full = match kind {
            0 => format!("{:x}", a.x),
            1 => format!("{:X}", a.x),
            _ => format!("{:?}", a.x),
        };
        let room = c.below(full.len() + 3);
        c.key(&(kind, room));
        c.say(|| format!("{} into a sink with room for {} of {} bytes", ["{:x}", "{:X}", "{:?}"][kind], room, full.len()));
        c.label(if room < full.len() { "sink fails" } else { "sink holds" });
        c.nontrivial |= room < full.len();
        let mut s = Sink { room, text: String::new() };
        let r = match kind {
            0 => write!(s, "{:x}", a.x),
            1 => write!(s, "{:X}", a.x),
            _ => write!(s, "{:?}", a.x),
        };
        ck(r.is_err() == (room < full.len()), || format!("formatting returned {:?}", r))?;
        ck(full.starts_with(&s.text), || format!("{} is not a prefix of {}", s.text, full))?;
        ck(r.is_err() || s.text == full, || format!("wrote {}, not {}", s.text, full))?;
        ck(raw(&a.x) == words, || "formatting changed the stored words".to_string())?;
        // The element serves as before afterwards.
        expect("element after formatting", &(a.x + a.x), &F::info().m.add(&a.v, &a.v))
    }));
}

// -------------------------------------------------------------------- F23

const PURE_OPS: [&str; 27] = [
    "a + b", "a - b", "a * b", "-a", "a squared", "a += b", "a -= b", "a *= b", "square", "small_add", "small_sub",
    "small_mul", "normalize", "pack and unpack", "bit", "equal", "and", "or", "select", "hex", "random", "invert",
    "a / b", "legendre", "sqrt", "a / b, b / a", "sqrt of any",
];

#[derive(Clone, Copy)]
struct Task<F> {
    op: usize,
    a: F,
    b: F,
    va: Big,
    vb: Big,
    k: i32,
    seed: u64,
}

impl<F: Fld> Task<F> {
    /// The integers that the results stand for.
    fn run(&self) -> Result<(Big, Big, u64), String> {
        let (mut a, mut b, k) = (self.a, self.b, self.k);
        let bit = self.seed & 1 == 1;
        let nbits = F::info().m.n as u64;
        let mut flag = 0;
        match self.op {
            0 => a = a + b,
            1 => a = a - b,
            2 => a = a * b,
            3 => a = -a,
            4 => a = a.squared(),
            5 => a += b,
            6 => a -= b,
            7 => a *= b,
            8 => a.square(),
            9 => a = a.small_add(k),
            10 => a.small_sub_assign(k),
            11 => a = a.small_mul(k),
            12 => a.normalize(),
            13 => {
                let v = a.packed_vec();
                b.unpack(&v);
                a = F::unpacked(&v);
            }
            14 => flag = a.bit((self.seed % nbits) as usize) as u64,
            15 => flag = a.normalize_eq(&mut b) as u64,
            16 => a.normalize_bitand(&mut b),
            17 => {
                // Disjoint bits, so that the result is below the modulus.
                a.normalized_bitand(&F::filled(bit));
                b.normalized_bitand(&F::filled(!bit));
                a.normalize_bitor(&mut b);
            }
            18 => {
                a.normalized_bitand(&F::filled(bit));
                b.normalized_bitand(&F::filled(!bit));
                a.normalized_bitor(&b);
            }
            19 => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                format!("{:x} {:X} {:?}", a, a, a).hash(&mut h);
                flag = h.finish();
            }
            20 => {
                let mut g = Feed { head: Vec::new(), at: 0, tail: Prng::new(self.seed) };
                a = F::rand(&mut g);
                b = F::rand(&mut g);
            }
            21 => a = a.inverted(),
            22 => a = a / b,
            23 => a = a.legendre(),
            24 => a = a.squared().sqrt(),
            25 => {
                let q = a / b;
                b /= a;
                a = q;
            }
            _ => a = a.sqrt(),
        }
        Ok((value(&a)?, value(&b)?, flag))
    }

    /// What the first result must be, where that is a question of arithmetic.
    fn exact(&self, got: &(Big, Big, u64)) -> Res {
        let m = F::info().m;
        let (a, b, k) = (&self.va, &self.vb, m.int(self.k as i64));
        let got = match self.op {
            24 => m.mul(&got.0, &got.0),
            _ => got.0,
        };
        let one = Big::from_u64(1);
        let want = match self.op {
            0 | 5 => m.add(a, b),
            1 | 6 => m.sub(a, b),
            2 | 7 => m.mul(a, b),
            3 => m.neg(a),
            4 | 8 | 24 => m.mul(a, a),
            9 => m.add(a, &k),
            10 => m.sub(a, &k),
            11 => m.mul(a, &k),
            12..=15 | 19 => *a,
            16 => a.and(b),
            18 => if self.seed & 1 == 1 { *a } else { *b },
            21 if !a.is_zero() => m.inv(a),
            22 | 25 if !b.is_zero() => m.mul(a, &m.inv(b)),
            23 if !a.is_zero() => if m.jacobi(a) == 1 { one } else { m.neg(&one) },
            _ => return Ok(()),
        };
        ck(got == want, || format!("{} gave {:?}, not {:?}", PURE_OPS[self.op], got, want))
    }
}

fn f23<F: Fld>(u: &mut Us, n: usize) {
    fn tasks<F: Fld>(c: &mut Ctx, most: usize) -> Vec<Task<F>> {
        let len = 2 + c.below(most);
        let mut out: Vec<Task<F>> = Vec::new();
        let only = if c.flag() { Some(c.below(PURE_OPS.len())) } else { None };
        for j in 0..len {
            let kind = c.below(PURE_OPS.len());
            let kind = only.unwrap_or(kind);
            // Expensive ones less often.
            let kind = if kind >= 21 && only.is_none() && c.below(3) > 0 { kind - 21 } else { kind };
            let a = operand::<F>(c, "a", 1);
            let k = match c.below(4) {
                0 if j > 0 => {
                    // An earlier one, or one that shares its low or high bits.
                    let e = out[c.below(j)].k;
                    match c.below(3) {
                        0 => e,
                        1 => e ^ (1 << c.below(32)),
                        _ => e.wrapping_neg(),
                    }
                }
                _ => gen_i32(c),
            };
            // Like an earlier operand, or not.
            let a = match c.below(3) {
                0 if j > 0 => {
                    let e = &out[c.below(j)];
                    partner::<F>(c, "a", &El { x: e.a, v: e.va, how: String::new(), lazy: false }, 1)
                }
                _ => a,
            };
            let b = partner::<F>(c, "b", &a, 1);
            let t = Task { op: kind, a: a.x, b: b.x, va: a.v, vb: b.v, k, seed: c.draw(0) };
            c.key(&(kind, t.k, a.v, b.v));
            c.say(|| format!("task {}: {}, k = {}", j, PURE_OPS[kind], t.k));
            out.push(t);
        }
        c.nontrivial = true;
        out
    }
    u.push(unit(nm::<F>("order"), n, 300, |c| {
        let ts = tasks::<F>(c, 20);
        let mut first = Vec::new();
        for t in &ts {
            let r = t.run()?;
            t.exact(&r)?;
            first.push(r);
        }
        // Again in another order.
        let mut order: Vec<usize> = (0..ts.len()).collect();
        for k in (1..order.len()).rev() {
            let j = c.below(k + 1);
            order.swap(k, j);
        }
        c.say(|| format!("again in the order {:?}", order));
        for &k in &order {
            let again = ts[k].run()?;
            ck(again == first[k], || {
                format!("task {} ({}) gave {:?}, and {:?} when repeated after others", k, PURE_OPS[ts[k].op], first[k], again)
            })?;
        }
        Ok(())
    }));
    u.push(unit(nm::<F>("threads"), n / 3 + 1, 1500, |c| {
        let ts = tasks::<F>(c, 12);
        let mut first = Vec::new();
        for t in &ts {
            let r = t.run()?;
            t.exact(&r)?;
            first.push(r);
        }
        let workers = 2 + c.below(3);
        let rounds = 1 + c.below(4);
        c.key(&(workers, rounds));
        c.say(|| format!("again by {} threads at once, {} times each", workers, rounds));
        at_once(workers, |w| {
            for r in 0..rounds {
                for j in 0..ts.len() {
                    let k = (j + w * ts.len() / workers + r) % ts.len();
                    let again = ts[k].run()?;
                    ck(again == first[k], || {
                        format!("task {} ({}) gave {:?}, and {:?} on a thread beside others", k, PURE_OPS[ts[k].op], first[k], again)
                    })?;
                }
            }
            Ok(())
        })
    }));
}

/// Runs `f` on several new threads that start together; the first failure.
pub fn at_once<G: Fn(usize) -> Res + Sync>(workers: usize, f: G) -> Res {
    let gate = std::sync::Barrier::new(workers);
    let out: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (gate, f) = (&gate, &f);
                s.spawn(move || {
                    gate.wait();
                    crate::engine::caught(|| f(w))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    out.into_iter().find(|r| r.is_err()).unwrap_or(Ok(()))
}

pub const RULE_OPS: &str = "Operands are built by the public API from integers biased to word, digit and byte boundaries, \
to 0, the modulus and powers of two, as unpacked values, published constants, or expressions up to depth 4 whose value the \
reference integers track; some units choose the result first. A case is non-trivial when an operand is stored in other than \
normal form, or an operand or result has a 54/56/58-bit word of all zeros or all ones, or by the unit's own class \
(see labels); distinct means distinct operand integers and parameters.";

/// The units of a field property; `s` scales the number of cases.
pub fn units(id: &str, s: usize) -> Option<Vec<Unit>> {
    let mut u: Us = Vec::new();
    let v = &mut u;
    match id {
        "F01" => each_field!(f01(v, 2_000_000 * s)),
        "F02" => each_field!(f02(v, 2_400_000 * s)),
        "F03" => each_field!(f03(v, 800_000 * s)),
        "F04" => each_field!(f04(v, 2_000_000 * s)),
        "F05" => each_field!(f05(v, 40_000 * s)),
        "F06" => each_field!(f06(v, 60_000 * s)),
        "F07" => each_field!(f07(v, 60_000 * s)),
        "F08" => each_field!(f08(v, 2_000_000 * s)),
        "F09" => each_field!(f09(v, 280_000 * s)),
        "F10" => each_field!(f10(v, 1_800_000 * s)),
        "F11" => each_field!(f11(v, 3_000_000 * s)),
        "F12" => each_field!(f12(v, 1_500_000 * s)),
        "F13" => each_field!(f13(v, 450_000 * s)),
        "F14" => each_field!(f14(v, 600_000 * s)),
        "F15" => each_field!(f15(v, 4_000_000 * s)),
        "F16" => each_field!(f16(v, 900_000 * s)),
        "F17" => each_field!(f17(v, 400_000 * s)),
        "F19" => each_field!(f19(v, 2_000_000 * s)),
        "F20" => each_field!(f20(v, 160_000 * s)),
        "F21" => each_field!(f21(v, 700_000 * s)),
        "F22" => each_field!(f22(v, 500_000 * s)),
        "F23" => each_field!(f23(v, 8_000 * s)),
        _ => return None,
    }
    Some(u)
}
