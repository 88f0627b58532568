//! The properties of the Edwards curves and of the published parameters.

use crate::access::{assemble, coords};
use crate::big::Big;
use crate::curve::*;
use crate::each_curve;
use crate::engine::{unit, Ctx, Res, Unit};
use crate::field::*;
use safecurves_rust::curve::point::Point;

type Us = Vec<Unit>;

fn nm<C: Crv>(what: &str) -> String {
    format!("{}/{}", C::cinfo().name, what)
}

fn ck(cond: bool, f: impl FnOnce() -> String) -> Res {
    if cond { Ok(()) } else { Err(f()) }
}

fn small(k: u64) -> Big {
    Big::from_u64(k)
}

/// Two points in one of the relations that matter to an addition law.
fn pair<C: Crv>(c: &mut Ctx) -> (Pt<C>, Pt<C>) {
    let ci = C::cinfo();
    let a = point::<C>(c, "P");
    let rel = c.below(9);
    let r = match rel {
        0 => a.r,
        1 => ci.neg(&a.r),
        2 => ci.zero(),
        3 => ci.add(&a.r, &ci.affine(&ci.torsion[c.below(ci.torsion.len())])),
        4 => {
            let t = ci.add(&a.r, &ci.affine(&ci.torsion[c.below(ci.torsion.len())]));
            ci.neg(&t)
        }
        5 => {
            let t = ci.add(&a.r, &a.r);
            let t = if c.flag() { ci.add(&t, &a.r) } else { t };
            if c.flag() { ci.neg(&t) } else { t }
        }
        _ => gen_ref::<C>(c),
    };
    c.label(match rel {
        0 => "Q = P",
        1 => "Q = -P",
        2 => "Q = O",
        3 => "Q = P + small-order point",
        4 => "Q = -P + small-order point",
        5 => "Q = +-2P or +-3P",
        _ => "Q independent",
    });
    if c.chance(1, 8) {
        // Scaled like the first, up to sign or a factor, or by one of its coordinates.
        c.label("Z tied to the other point");
        let (x, y, z, t) = coords(&a.p);
        let l = value(&[z, z, z, x, y, t][c.below(6)]).unwrap_or(Big::ZERO);
        let l = match c.below(4) {
            0 => l,
            1 => ci.m.neg(&l),
            2 => ci.m.add(&l, &l),
            _ => ci.m.add(&l, &Big::from_u64(1)),
        };
        let l = if l.is_zero() { Big::from_u64(1) } else { l };
        let q = scaled::<C>(c, &r, &l);
        return (a, held(c, "Q", &r, q));
    }
    let b = point_of::<C>(c, "Q", &r);
    (a, b)
}

// -------------------------------------------------------------------- C01

fn c01<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("add"), n, 20, |c| {
        let ci = C::cinfo();
        let (a, b) = pair::<C>(c);
        expect_pt("P + Q", &(a.p + b.p), &ci.add(&a.r, &b.r))
    }));
    u.push(unit(nm::<C>("target"), n / 2, 20, |c| {
        // Q = S - P for a chosen sum S.
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let s = gen_ref::<C>(c);
        let b = point_of::<C>(c, "Q", &ci.add(&s, &ci.neg(&a.r)));
        expect_pt("P + Q", &(a.p + b.p), &s)
    }));
    u.push(unit(nm::<C>("laws"), n / 4, 40, |c| {
        let ci = C::cinfo();
        let (a, b) = pair::<C>(c);
        let d = point::<C>(c, "R");
        let ab = ci.add(&a.r, &b.r);
        let abd = ci.add(&ab, &d.r);
        expect_pt("Q + P", &(b.p + a.p), &ab)?;
        expect_pt("(P + Q) + R", &((a.p + b.p) + d.p), &abd)?;
        expect_pt("P + (Q + R)", &(a.p + (b.p + d.p)), &abd)?;
        expect_pt("P + O", &(a.p + Ext::<C>::zero()), &a.r)?;
        expect_pt("O + P", &(Ext::<C>::zero() + a.p), &a.r)?;
        expect_pt("P + P", &(a.p + a.p), &ci.add(&a.r, &a.r))
    }));
}

// --------------------------------------------------------------- C02, C03

fn c02<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("double"), n, 20, |c| {
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let w = ci.add(&a.r, &a.r);
        expect_pt("doubled", &a.p.doubled(), &w)?;
        let mut p = a.p;
        p.double();
        expect_pt("double", &p, &w)
    }));
    u.push(unit(nm::<C>("chain"), n / 8, 60, |c| {
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let k = 1 + c.below(12);
        c.say(|| format!("{} doublings", k));
        let (mut p, mut r) = (a.p, a.r);
        for _ in 0..k {
            p.double();
            r = ci.add(&r, &r);
            // The result is fit for addition too (its T is right).
            expect_pt("2P + P", &(p + a.p), &ci.add(&r, &a.r))?;
        }
        expect_pt("2^k P", &p, &r)
    }));
}

fn c03<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("triple"), n, 20, |c| {
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let w = ci.add(&ci.add(&a.r, &a.r), &a.r);
        expect_pt("tripled", &a.p.tripled(), &w)?;
        let mut p = a.p;
        p.triple();
        expect_pt("triple", &p, &w)
    }));
    u.push(unit(nm::<C>("chain"), n / 8, 60, |c| {
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let k = 1 + c.below(8);
        c.say(|| format!("{} triplings", k));
        let (mut p, mut r) = (a.p, a.r);
        for _ in 0..k {
            p.triple();
            r = ci.add(&ci.add(&r, &r), &r);
            expect_pt("3P + P", &(p + a.p), &ci.add(&r, &a.r))?;
            expect_pt("2(3P)", &p.doubled(), &ci.add(&r, &r))?;
        }
        expect_pt("3^k P", &p, &r)
    }));
}

// -------------------------------------------------------------------- C04

fn c04<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("zero"), n, 20, |c| {
        let ci = C::cinfo();
        let z = Ext::<C>::zero();
        expect_pt("O", &z, &ci.zero())?;
        let a = point::<C>(c, "P");
        expect_pt("P + O", &(a.p + z), &a.r)?;
        expect_pt("O + P", &(z + a.p), &a.r)?;
        expect_pt("O + O", &(z + z), &ci.zero())?;
        expect_pt("2 O", &z.doubled(), &ci.zero())?;
        expect_pt("3 O", &z.tripled(), &ci.zero())
    }));
    u.push(unit(nm::<C>("init"), n, 20, |c| {
        let ci = C::cinfo();
        // Over a point with any earlier content.
        let old = point::<C>(c, "target");
        let a = ci.to_affine(&gen_ref::<C>(c));
        let (x, y) = (gen_rep::<C::S>(c, &a.0), gen_rep::<C::S>(c, &a.1));
        c.key(&a);
        c.say(|| format!("init({:?} as {:?}, {:?} as {:?})", a.0, x, a.1, y));
        let w = ci.affine(&a);
        let mut p = old.p;
        p.init(x, y);
        expect_pt("initialized", &p, &w)?;
        // Nothing of the old point shows in what is computed from it.
        let b = point::<C>(c, "Q");
        expect_pt("initialized + Q", &(p + b.p), &ci.add(&w, &b.r))?;
        expect_pt("2 initialized", &p.doubled(), &ci.add(&w, &w))?;
        // and again, over itself
        let a2 = ci.to_affine(&b.r);
        p.init(elem::<C::S>(&a2.0), elem::<C::S>(&a2.1));
        expect_pt("initialized again", &p, &b.r)
    }));
}

// -------------------------------------------------------------------- C05

fn scalar_rep<C: Crv>(c: &mut Ctx, k: &Big) -> C::S {
    let s = gen_rep::<C::S>(c, k);
    c.key(k);
    let lazy = is_lazy_form(&s);
    c.say(|| format!("k = {:?} stored as {:?}", k, s));
    if lazy {
        c.label("scalar not in normal form");
    }
    s
}

fn c05<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("multiple"), n, 2000, |c| {
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let k = gen_scalar::<C>(c);
        let mut s = scalar_rep::<C>(c, &k);
        let w = ci.mul(&k, &a.r);
        let mut p = a.p;
        p.scalar_mult(&mut s);
        expect_pt("kP", &p, &w)?;
        expect("k afterwards", &s, &k)
    }));
    u.push(unit(nm::<C>("normalized"), n, 2000, |c| {
        let ci = C::cinfo();
        let a = point::<C>(c, "P");
        let k = gen_scalar::<C>(c);
        let mut s = scalar_rep::<C>(c, &k);
        s.normalize();
        let w = ci.mul(&k, &a.r);
        let mut p = a.p;
        p.scalar_mult_normalized(&s);
        expect_pt("kP", &p, &w)?;
        // fit for further use
        expect_pt("kP + P", &(p + a.p), &ci.add(&w, &a.r))
    }));
    u.push(unit(nm::<C>("one-bit"), n, 2000, |c| {
        // Every bit position matters on its own: 2^i P and (2^i + 2^j) P.
        let ci = C::cinfo();
        let m = &ci.m;
        let a = point::<C>(c, "P");
        let i = c.below(m.n);
        let mut k = Big::pow2(i);
        if c.flag() {
            k = m.red(&k.add(&Big::pow2(c.below(m.n))));
        }
        let k = m.red(&k);
        let mut s = scalar_rep::<C>(c, &k);
        let mut p = a.p;
        p.scalar_mult(&mut s);
        expect_pt("kP", &p, &ci.mul(&k, &a.r))
    }));
    u.push(unit(nm::<C>("small-order"), n / 4 + 1, 2000, |c| {
        let ci = C::cinfo();
        let t = c.below(ci.torsion.len());
        let r = ci.affine(&ci.torsion[t]);
        let a = point_of::<C>(c, "T", &r);
        c.nontrivial = true;
        let k = gen_scalar::<C>(c);
        let mut s = scalar_rep::<C>(c, &k);
        let mut p = a.p;
        p.scalar_mult(&mut s);
        let k8 = k.low(3);
        expect_pt("kT", &p, &ci.mul(&k8, &r))
    }));
}

// -------------------------------------------------------------------- C06

fn times<C: Crv>(k: &Big, p: &Ext<C>) -> Ext<C> {
    let mut q = *p;
    let mut s = elem::<C::S>(k);
    q.scalar_mult(&mut s);
    q
}

fn same<C: Crv>(what: &str, p: &Ext<C>, q: &Ext<C>) -> Res {
    let ci = C::cinfo();
    let a = read(what, p)?;
    let b = read(what, q)?;
    ck(ci.eq(&a, &b), || {
        let (a, b) = (ci.to_affine(&a), ci.to_affine(&b));
        format!("{}: left is ({:?}, {:?}), right is ({:?}, {:?})", what, a.0, a.1, b.0, b.1)
    })
}

/// k mod (a few subtractions of) the order.
fn mod_order(ci: &CInfo, k: &Big) -> Big {
    let mut k = *k;
    while k >= ci.order {
        k = k.sub(&ci.order);
    }
    k
}

fn c06<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("sum"), n, 3000, |c| {
        let p = point::<C>(c, "P");
        let k = gen_scalar::<C>(c);
        let a = {
            let a = gen_scalar::<C>(c);
            if a > k { k } else { a }
        };
        let b = k.sub(&a);
        c.key(&(a, b));
        c.say(|| format!("a = {:?}, b = {:?}", a, b));
        same("aP + bP = (a+b)P", &(times(&a, &p.p) + times(&b, &p.p)), &times(&k, &p.p))
    }));
    u.push(unit(nm::<C>("commute"), n, 4000, |c| {
        let p = point::<C>(c, "P");
        let (a, b) = (gen_scalar::<C>(c), gen_scalar::<C>(c));
        c.key(&(a, b));
        c.say(|| format!("a = {:?}, b = {:?}", a, b));
        same("a(bP) = b(aP)", &times(&a, &times(&b, &p.p)), &times(&b, &times(&a, &p.p)))
    }));
    u.push(unit(nm::<C>("distribute"), n, 3000, |c| {
        let p = point::<C>(c, "P");
        let q = point::<C>(c, "Q");
        let a = gen_scalar::<C>(c);
        c.key(&a);
        c.say(|| format!("a = {:?}", a));
        same("a(P + Q) = aP + aQ", &times(&a, &(p.p + q.p)), &(times(&a, &p.p) + times(&a, &q.p)))
    }));
    u.push(unit(nm::<C>("small"), n, 2000, |c| {
        let p = point::<C>(c, "P");
        same("0P = O", &times(&small(0), &p.p), &Ext::<C>::zero())?;
        same("1P = P", &times(&small(1), &p.p), &p.p)?;
        same("2P", &times(&small(2), &p.p), &p.p.doubled())?;
        same("3P", &times(&small(3), &p.p), &p.p.tripled())?;
        same("P + 2P = 3P", &(p.p + p.p.doubled()), &p.p.tripled())?;
        // -1 P, through the scalar p - 1 and the order of the curve, is below.
        let k = 4 + c.draw(60);
        c.key(&k);
        c.say(|| format!("k = {}", k));
        let mut s = Ext::<C>::zero();
        for _ in 0..k {
            s += p.p;
        }
        same("k additions", &times(&small(k), &p.p), &s)
    }));
    u.push(unit(nm::<C>("order"), n, 3000, |c| {
        let ci = C::cinfo();
        let (bx, by, ord) = C::base_and_order();
        c.nontrivial = true;
        let mut b = Ext::<C>::zero();
        b.init(bx, by);
        let o = value(&ord)?;
        ck(o == ci.order, || format!("the published order is {:?}, documented as {:?}", o, ci.order))?;
        // A random multiple of the base point has the same order.
        let k = mod_order(ci, &gen_scalar::<C>(c));
        c.key(&k);
        c.say(|| format!("k = {:?}", k));
        let q = times(&k, &b);
        let mut s = ord;
        let mut z = q;
        z.scalar_mult(&mut s);
        same("order * kB = O", &z, &Ext::<C>::zero())?;
        let below = o.sub(&small(1));
        same("(order - 1) kB + kB = O", &(times(&below, &q) + q), &Ext::<C>::zero())?;
        // Congruent scalars
        let k2 = k.add(&o);
        if k2 < ci.m.p {
            same("kB = (k + order)B", &times(&k2, &b), &q)?;
        }
        Ok(())
    }));
    u.push(unit(nm::<C>("whole-group"), n, 3000, |c| {
        // cofactor * order kills every point of the curve.
        let ci = C::cinfo();
        let p = point::<C>(c, "P");
        let q = times(&small(ci.cofactor), &times(&ci.order, &p.p));
        same("cofactor * order * P = O", &q, &Ext::<C>::zero())
    }));
}

// -------------------------------------------------------------------- C10

fn c10_history<C: Crv>(c: &mut Ctx, maxlen: usize) -> Res {
    let ci = C::cinfo();
    let mut regs: Vec<Pt<C>> = Vec::new();
    for name in ["R0", "R1", "R2"] {
        let p = point::<C>(c, name);
        regs.push(p);
    }
    regs.push(Pt { p: Ext::<C>::zero(), r: ci.zero() });
    let len = 1 + c.below(maxlen);
    let mut muls = 0;
    for step in 0..len {
        let i = c.below(4);
        let j = c.below(4);
        let kind = c.below(12);
        c.key(&(i, j, kind));
        let (pi, ri) = (regs[i].p, regs[i].r);
        let (pj, rj) = (regs[j].p, regs[j].r);
        let what;
        match kind {
            0 | 1 => {
                regs[i].p += pj;
                regs[i].r = ci.add(&ri, &rj);
                what = format!("R{} += R{}", i, j);
            }
            2 => {
                let t = regs[j].p;
                regs[i].p += &t;
                regs[i].r = ci.add(&ri, &rj);
                what = format!("R{} += &R{}", i, j);
            }
            3 => {
                let k = c.below(4);
                let s = &regs[j].p + &regs[k].p;
                let r = ci.add(&rj, &regs[k].r);
                regs[i] = Pt { p: s, r };
                what = format!("R{} = &R{} + &R{}", i, j, k);
            }
            4 => {
                let k = c.below(4);
                regs[i] = Pt { p: pj + regs[k].p, r: ci.add(&rj, &regs[k].r) };
                what = format!("R{} = R{} + R{}", i, j, k);
            }
            5 => {
                regs[i].p.double();
                regs[i].r = ci.add(&ri, &ri);
                what = format!("R{}.double()", i);
            }
            6 => {
                regs[i] = Pt { p: pj.doubled(), r: ci.add(&rj, &rj) };
                what = format!("R{} = R{}.doubled()", i, j);
            }
            7 => {
                regs[i].p.triple();
                regs[i].r = ci.add(&ri, &ci.add(&ri, &ri));
                what = format!("R{}.triple()", i);
            }
            8 => {
                regs[i] = Pt { p: pj.tripled(), r: ci.add(&rj, &ci.add(&rj, &rj)) };
                what = format!("R{} = R{}.tripled()", i, j);
            }
            9 => {
                let a = ci.to_affine(&gen_ref::<C>(c));
                regs[i].p.init(gen_rep::<C::S>(c, &a.0), gen_rep::<C::S>(c, &a.1));
                regs[i].r = ci.affine(&a);
                what = format!("R{}.init({:?}, {:?})", i, a.0, a.1);
            }
            10 => {
                // Read the point out and initialize another one from it, with
                // the library's own division.
                let (x, y, z, _) = coords(&pj);
                regs[i].p.init(x / z, y / z);
                regs[i].r = rj;
                what = format!("R{} from the affine coordinates of R{}", i, j);
            }
            _ => {
                if muls >= 2 {
                    regs[i] = Pt { p: pi + pi, r: ci.add(&ri, &ri) };
                    what = format!("R{} = R{} + R{}", i, i, i);
                } else {
                    muls += 1;
                    let k = gen_scalar::<C>(c);
                    c.key(&k);
                    if c.flag() {
                        let mut s = gen_rep::<C::S>(c, &k);
                        regs[i].p.scalar_mult(&mut s);
                    } else {
                        let s = elem::<C::S>(&k);
                        regs[i].p.scalar_mult_normalized(&s);
                    }
                    regs[i].r = ci.mul(&k, &ri);
                    c.label("with a scalar multiplication");
                    what = format!("R{} *= {:?}", i, k);
                }
            }
        }
        c.say(|| what.clone());
        expect_pt(&format!("step {}", step), &regs[i].p, &regs[i].r)?;
    }
    for (i, r) in regs.iter().enumerate() {
        expect_pt(&format!("R{} at the end", i), &r.p, &r.r)?;
        for v in values(&r.p)? {
            c.digest(&v);
        }
    }
    c.nontrivial = true;
    Ok(())
}

fn c10<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("short"), n, 700, |c| c10_history::<C>(c, 6)));
    u.push(unit(nm::<C>("history"), n, 1500, |c| c10_history::<C>(c, 30)));
    u.push(unit(nm::<C>("long"), n / 10 + 1, 3000, |c| c10_history::<C>(c, 200)));
}

// -------------------------------------------------------------------- C11

fn values<C: Crv>(p: &Ext<C>) -> Result<[Big; 4], String> {
    let (x, y, z, t) = coords(p);
    Ok([value(&x)?, value(&y)?, value(&z)?, value(&t)?])
}

fn c11<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("forms"), n, 80, |c| {
        let (a, b) = pair::<C>(c);
        let (va, vb) = (values(&a.p)?, values(&b.p)?);
        let (p, q) = (a.p, b.p);
        let s0 = p + q;
        let s1 = &p + &q;
        let mut s2 = p;
        s2 += q;
        let mut s3 = p;
        s3 += &q;
        for (what, s) in [("&P + &Q", &s1), ("P += Q", &s2), ("P += &Q", &s3)] {
            same(what, &s0, s)?;
        }
        ck(values(&q)? == vb, || "the right operand of an addition changed".to_string())?;
        ck(values(&p)? == va, || "the left operand of P + Q changed".to_string())?;
        let d = p.doubled();
        let mut e = p;
        e.double();
        same("doubled / double", &d, &e)?;
        same("doubled / P + P", &d, &(p + p))?;
        let t = p.tripled();
        let mut e = p;
        e.triple();
        same("tripled / triple", &t, &e)?;
        same("tripled / P + P + P", &t, &(p + p + p))?;
        ck(values(&p)? == va, || "the receiver of doubled or tripled changed".to_string())?;
        let g = p.clone();
        ck(values(&g)? == va, || "a clone differs".to_string())
    }));
    u.push(unit(nm::<C>("scalar"), n / 40 + 1, 3000, |c| {
        let a = point::<C>(c, "P");
        let k = gen_scalar::<C>(c);
        let s = scalar_rep::<C>(c, &k);
        let mut s1 = s;
        let mut p1 = a.p;
        p1.scalar_mult(&mut s1);
        expect("the scalar afterwards", &s1, &k)?;
        let mut s2 = s;
        s2.normalize();
        let before = raw(&s2);
        let mut p2 = a.p;
        p2.scalar_mult_normalized(&s2);
        ck(raw(&s2) == before, || "the normalized scalar changed".to_string())?;
        same("scalar_mult / scalar_mult_normalized", &p1, &p2)
    }));
}

// -------------------------------------------------------------------- C12

fn c12<C: Crv>(u: &mut Us, n: usize) {
    u.push(unit(nm::<C>("all-operations"), n, 900, |c| {
        let (a, b) = pair::<C>(c);
        let k = gen_scalar::<C>(c);
        let s = scalar_rep::<C>(c, &k);
        let (p, q) = (a.p, b.p);
        let mut out = vec![p + q, &q + &p, p.doubled(), q.tripled(), Ext::<C>::zero() + p];
        let mut x = p;
        x += &q;
        x.double();
        x.triple();
        out.push(x);
        let mut x = p;
        let mut t = s;
        x.scalar_mult(&mut t);
        out.push(x);
        let mut t = s;
        t.normalize();
        let mut x = out[0];
        x.scalar_mult_normalized(&t);
        out.push(x);
        let (px, py, pz, _) = coords(&p);
        let mut x = q;
        x.init(px / pz, py / pz);
        out.push(x);
        for x in &out {
            for v in values(x)? {
                c.digest(&v);
            }
        }
        Ok(())
    }));
    u.push(unit(nm::<C>("history"), n / 2, 1500, |c| c10_history::<C>(c, 30)));
}

// -------------------------------------------------------------------- C13

const PURE_OPS: [&str; 9] =
    ["P + Q", "&P + &Q", "P += Q", "double", "doubled", "triple", "init", "scalar_mult", "scalar_mult_normalized"];

#[derive(Clone, Copy)]
struct Task<C: Crv> {
    op: usize,
    p: Ext<C>,
    q: Ext<C>,
    x: C::S,
    y: C::S,
    s: C::S,
    want: Rp,
}

impl<C: Crv> Task<C> {
    /// The affine point that comes out.
    fn run(&self) -> Result<(Big, Big), String> {
        let mut p = self.p;
        match self.op {
            0 => p = p + self.q,
            1 => p = &self.p + &self.q,
            2 => p += self.q,
            3 => p.double(),
            4 => p = p.doubled(),
            5 => p.triple(),
            6 => p.init(self.x, self.y),
            7 => {
                let mut s = self.s;
                p.scalar_mult(&mut s);
            }
            _ => {
                let mut s = self.s;
                s.normalize();
                p.scalar_mult_normalized(&s);
            }
        }
        let r = read("result", &p)?;
        Ok(C::cinfo().to_affine(&r))
    }
}

fn c13<C: Crv>(u: &mut Us, n: usize) {
    fn tasks<C: Crv>(c: &mut Ctx, most: usize) -> Vec<Task<C>> {
        let ci = C::cinfo();
        let len = 2 + c.below(most);
        let mut out: Vec<Task<C>> = Vec::new();
        // The same few points and scalars come back in several tasks.
        let mut pts: Vec<Pt<C>> = (0..3).map(|_| pair::<C>(c)).flat_map(|(a, b)| [a, b]).collect();
        // Points that share stored coordinates with another one: (-X, Y, Z, -T)
        // or (-X, -Y, Z, T).
        for k in 0..3 {
            let a = pts[2 * k].clone();
            let (x, y, z, t) = coords(&a.p);
            let (q, r) = if c.flag() {
                (assemble(-x, y, z, -t), ci.neg(&a.r))
            } else {
                (assemble(-x, -y, z, t), Rp { x: ci.m.neg(&a.r.x), y: ci.m.neg(&a.r.y), z: a.r.z })
            };
            if let Some(p) = q {
                pts.push(Pt { p, r });
            }
        }
        let ks: Vec<Big> = (0..3).map(|_| gen_scalar::<C>(c)).collect();
        for j in 0..len {
            let op = match c.below(12) {
                k @ 0..=6 => k,
                7 | 8 => 7,
                9 | 10 => 8,
                _ => 0,
            };
            let (a, b) = (c.below(pts.len()), c.below(pts.len()));
            let k = ks[c.below(ks.len())];
            let k = match c.below(4) {
                0 => ci.m.neg(&k),
                1 => ci.m.red(&k.or(&Big::pow2(c.below(ci.m.n)))),
                _ => k,
            };
            let (x, y) = ci.to_affine(&pts[b].r);
            let ra = &pts[a].r;
            let want = match op {
                0..=2 => ci.add(ra, &pts[b].r),
                3 | 4 => ci.add(ra, ra),
                5 => ci.add(ra, &ci.add(ra, ra)),
                6 => pts[b].r,
                _ => ci.mul(&k, ra),
            };
            let t = Task {
                op,
                want,
                p: pts[a].p,
                q: pts[b].p,
                x: gen_rep(c, &x),
                y: gen_rep(c, &y),
                s: gen_rep(c, &k),
            };
            c.key(&(op, a, b, k));
            c.say(|| format!("task {}: {}, points {} and {}, k = {:?}", j, PURE_OPS[op], a, b, k));
            out.push(t);
        }
        c.nontrivial = true;
        out
    }
    u.push(unit(nm::<C>("order"), n, 8000, |c| {
        let ci = C::cinfo();
        let ts = tasks::<C>(c, 10);
        let mut first = Vec::new();
        for (j, t) in ts.iter().enumerate() {
            let r = t.run()?;
            ck(ci.eq(&ci.affine(&r), &t.want), || format!("task {} ({}) gave {:?}", j, PURE_OPS[t.op], r))?;
            first.push(r);
        }
        let mut order: Vec<usize> = (0..ts.len()).collect();
        for k in (1..order.len()).rev() {
            let j = c.below(k + 1);
            order.swap(k, j);
        }
        c.say(|| format!("again in the order {:?}", order));
        for &k in &order {
            let again = ts[k].run()?;
            ck(again == first[k], || {
                format!("task {} ({}) gave {:?}, and {:?} when repeated after others", k, PURE_OPS[ts[k].op], first[k], again)
            })?;
        }
        Ok(())
    }));
    u.push(unit(nm::<C>("threads"), n / 2 + 1, 20_000, |c| {
        let ci = C::cinfo();
        let ts = tasks::<C>(c, 6);
        let mut first = Vec::new();
        for (j, t) in ts.iter().enumerate() {
            let r = t.run()?;
            ck(ci.eq(&ci.affine(&r), &t.want), || format!("task {} ({}) gave {:?}", j, PURE_OPS[t.op], r))?;
            first.push(r);
        }
        let workers = 2 + c.below(3);
        c.key(&workers);
        c.say(|| format!("again by {} threads at once", workers));
        crate::fprops::at_once(workers, |w| {
            for j in 0..ts.len() {
                let k = (j + w * ts.len() / workers) % ts.len();
                let again = ts[k].run()?;
                ck(again == first[k], || {
                    format!("task {} ({}) gave {:?}, and {:?} on a thread beside others", k, PURE_OPS[ts[k].op], first[k], again)
                })?;
            }
            Ok(())
        })
    }));
}

// ------------------------------------------------------------------ table

pub const RULE: &str = "Points are taken from a pool (base point, points whose x or y is small, near the prime, a power of two, \
sparse or random), the small-order points, their sums, differences and negatives, or made afresh from a chosen coordinate; \
they are held by the library in the form left by init (coordinates in any representation), by an addition, or in \
coordinates scaled by a chosen Z. Scalars are small, near the prime, the order, its multiples, powers of two, patterned or \
random, in any representation. The oracle is the affine addition law over reference integers. A case is non-trivial when \
it has a point other than the neutral one; distinct means distinct stored coordinates and parameters.";

pub fn units(id: &str, s: usize) -> Option<Vec<Unit>> {
    let mut u: Us = Vec::new();
    let v = &mut u;
    match id {
        "C01" => each_curve!(c01(v, 150_000 * s)),
        "C02" => each_curve!(c02(v, 250_000 * s)),
        "C03" => each_curve!(c03(v, 300_000 * s)),
        "C04" => each_curve!(c04(v, 110_000 * s)),
        "C05" => each_curve!(c05(v, 5_000 * s)),
        "C06" => each_curve!(c06(v, 1_400 * s)),
        "C07" => crate::params::units(v, 12 * s),
        "C10" => each_curve!(c10(v, 6_000 * s)),
        "C11" => each_curve!(c11(v, 130_000 * s)),
        "C12" => each_curve!(c12(v, 4_000 * s)),
        "C13" => each_curve!(c13(v, 1_500 * s)),
        _ => return None,
    }
    Some(u)
}
