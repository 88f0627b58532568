//! The five Edwards curves under test, a projective reference for them, and
//! the generator of points.

use crate::access::{assemble, coords};
use crate::big::{Big, Modp};
use crate::engine::{Ctx, Prng};
use crate::field::*;
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use std::sync::OnceLock;

pub use safecurves_rust::curve::curve1174::Curve1174;
pub use safecurves_rust::curve::curve41417::Curve41417;
pub use safecurves_rust::curve::e_222::E222;
pub use safecurves_rust::curve::e_382::E382;
pub use safecurves_rust::curve::e_521::E521;

pub type Ext<C> = EdwardsExtended<C>;

/// Facts about a curve, from its documentation and the SafeCurves list.
pub struct CInfo {
    pub name: &'static str,
    pub m: Modp,
    /// x^2 + y^2 = 1 + d x^2 y^2
    pub d: Big,
    pub base: (Big, Big),
    pub order: Big,
    pub cofactor: u64,
    /// Affine points: small-order ones first, then others.
    pub torsion: Vec<(Big, Big)>,
    pub pool: Vec<(Big, Big)>,
}

pub trait Crv: EdwardsCurve<Scalar = <Self as Crv>::S> + Send + Sync + 'static {
    type S: Fld;
    fn cinfo() -> &'static CInfo;
    /// The published base point and order.
    fn base_and_order() -> (Self::S, Self::S, Self::S);
    /// The published d.
    fn d_const() -> Self::S;
}

macro_rules! crv {
    ($t:ty, $s:ty, [$x:path, $y:path, $o:path, $dc:path], $name:expr, $d:expr, $bx:expr, $by:expr, $e:expr, $sign:expr, $off:expr, $cof:expr) => {
        impl Crv for $t {
            type S = $s;
            fn base_and_order() -> ($s, $s, $s) {
                ($x, $y, $o)
            }
            fn d_const() -> $s {
                $dc
            }
            fn cinfo() -> &'static CInfo {
                static I: OnceLock<CInfo> = OnceLock::new();
                I.get_or_init(|| {
                    let m = <$s as Fld>::info().m;
                    let off = Big::from_dec($off);
                    let order = if $sign < 0 { Big::pow2($e).sub(&off) } else { Big::pow2($e).add(&off) };
                    make($name, m, m.int($d), (Big::from_hex($bx), Big::from_hex($by)), order, $cof)
                })
            }
        }
    };
}

crv!(E222, m222::Mod_e222_117, [m222::E222_BASE_X, m222::E222_BASE_Y, m222::E222_ORDER, m222::E222_D], "E-222", 160102, "19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51", "1c",
     220, -1, "181532584069648727485883454223169", 4);
crv!(Curve1174, m251::Mod_e251_9, [m251::CURVE1174_BASE_X, m251::CURVE1174_BASE_Y, m251::CURVE1174_ORDER, m251::CURVE1174_D], "Curve1174", -1174, "37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda",
     "6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e", 249, -1, "11332719920821432534773113288178349711", 4);
crv!(E382, m382::Mod_e382_105, [m382::E382_BASE_X, m382::E382_BASE_Y, m382::E382_ORDER, m382::E382_D], "E-382", -67254,
     "196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603", "11",
     380, -1, "1030303207694556153926491950732314247062623204330168346855", 4);
crv!(Curve41417, m414::Mod_e414_17, [m414::CURVE41417_BASE_X, m414::CURVE41417_BASE_Y, m414::CURVE41417_ORDER, m414::CURVE41417_D], "Curve41417", 3617,
     "1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595", "22",
     411, -1, "33364140863755142520810177694098385178984727200411208589594759", 8);
crv!(E521, m521::Mod_e521_1, [m521::E521_BASE_X, m521::E521_BASE_Y, m521::E521_ORDER, m521::E521_D], "E-521", -376014,
     "752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c",
     "c", 519, -1, "337554763258501705789107630418782636071904961214051226618635150085779108655765", 4);

/// Call `$f::<C>($args)` for every curve.
#[macro_export]
macro_rules! each_curve {
    ($f:ident ( $($a:expr),* )) => {{
        use $crate::curve::*;
        $f::<E222>($($a),*);
        $f::<Curve1174>($($a),*);
        $f::<E382>($($a),*);
        $f::<Curve41417>($($a),*);
        $f::<E521>($($a),*);
    }};
}

/// The other coordinate of a point: x and y play the same part.
pub fn other(m: &Modp, d: &Big, x: &Big) -> Option<Big> {
    let one = Big::from_u64(1);
    let xx = m.mul(x, x);
    let num = m.sub(&one, &xx);
    let den = m.sub(&one, &m.mul(d, &xx));
    // num/den is a square exactly when num * den is; den is never 0.
    let nd = m.mul(&num, &den);
    if nd.is_zero() {
        return Some(Big::ZERO);
    }
    if m.jacobi(&nd) != 1 {
        return None;
    }
    let q = m.mul(&num, &m.inv(&den));
    Some(m.sqrt34(&q))
}

fn make(name: &'static str, m: Modp, d: Big, base: (Big, Big), order: Big, cofactor: u64) -> CInfo {
    let one = Big::from_u64(1);
    let mone = m.p.sub(&one);
    let mut torsion = vec![(Big::ZERO, one), (Big::ZERO, mone), (one, Big::ZERO), (mone, Big::ZERO)];
    // Points of order 8 have x^2 = y^2 = u with d u^2 - 2 u + 1 = 0.
    let disc = m.sub(&one, &d);
    if m.jacobi(&disc) == 1 {
        let s = m.sqrt34(&disc);
        let di = m.inv(&d);
        for r in [s, m.neg(&s)] {
            let u = m.mul(&m.add(&one, &r), &di);
            if m.jacobi(&u) == 1 {
                let x = m.sqrt34(&u);
                let nx = m.neg(&x);
                torsion.extend([(x, x), (x, nx), (nx, x), (nx, nx)]);
            }
        }
    }
    // Cofactor 4 means exactly four points of order dividing 4 and none of
    // order 8; cofactor 8 four more.
    assert_eq!(torsion.len() as u64, cofactor, "{}: small-order points", name);
    let mut pool = vec![base];
    let mut r = Prng::new(0x5afe_c0de);
    let push = |v: Big, swap: bool, neg: bool, pool: &mut Vec<(Big, Big)>| {
        if let Some(w) = other(&m, &d, &v) {
            let w = if neg { m.neg(&w) } else { w };
            pool.push(if swap { (w, v) } else { (v, w) });
        }
    };
    // Coordinates that are small, near the modulus, powers of two, sparse, dense, random.
    for k in 2..20u64 {
        let v = Big::from_u64(k);
        push(v, k % 2 == 0, k % 3 == 0, &mut pool);
        push(m.neg(&v), k % 2 == 1, k % 3 == 1, &mut pool);
    }
    let i = Info { name, m, nbytes: 0, word: [54, 56, 58][(m.n % 3) as usize] };
    let mut k = 0;
    while pool.len() < 160 {
        let mut c = Ctx::random(r.next());
        let v = gen_value(&mut c, &i);
        push(v, k % 2 == 0, k % 3 == 0, &mut pool);
        k += 1;
    }
    CInfo { name, m, d, base, order, cofactor, torsion, pool }
}

// -------------------------------------------------------------- reference

/// A point in projective coordinates (X/Z, Y/Z), Z non-zero.
#[derive(Clone, Copy, Debug)]
pub struct Rp {
    pub x: Big,
    pub y: Big,
    pub z: Big,
}

impl CInfo {
    pub fn affine(&self, a: &(Big, Big)) -> Rp {
        Rp { x: a.0, y: a.1, z: Big::from_u64(1) }
    }

    pub fn zero(&self) -> Rp {
        self.affine(&(Big::ZERO, Big::from_u64(1)))
    }

    /// The affine law ((x1 y2 + x2 y1)/(1 + e), (y1 y2 - x1 x2)/(1 - e)),
    /// e = d x1 x2 y1 y2, over the common denominator Z1 Z2.
    pub fn add(&self, p: &Rp, q: &Rp) -> Rp {
        let m = &self.m;
        let zz = m.mul(&p.z, &q.z);
        let xx = m.mul(&p.x, &q.x);
        let yy = m.mul(&p.y, &q.y);
        let e = m.mul(&self.d, &m.mul(&xx, &yy));
        let z4 = m.mul(&zz, &zz);
        let plus = m.add(&z4, &e);
        let minus = m.sub(&z4, &e);
        let sx = m.add(&m.mul(&p.x, &q.y), &m.mul(&q.x, &p.y));
        let sy = m.sub(&yy, &xx);
        Rp {
            x: m.mul(&m.mul(&sx, &zz), &minus),
            y: m.mul(&m.mul(&sy, &zz), &plus),
            z: m.mul(&plus, &minus),
        }
    }

    pub fn neg(&self, p: &Rp) -> Rp {
        Rp { x: self.m.neg(&p.x), y: p.y, z: p.z }
    }

    pub fn eq(&self, p: &Rp, q: &Rp) -> bool {
        let m = &self.m;
        m.mul(&p.x, &q.z) == m.mul(&q.x, &p.z) && m.mul(&p.y, &q.z) == m.mul(&q.y, &p.z)
    }

    pub fn is_zero(&self, p: &Rp) -> bool {
        p.x.is_zero() && p.y == p.z
    }

    pub fn mul(&self, k: &Big, p: &Rp) -> Rp {
        let mut r = self.zero();
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, p);
            }
        }
        r
    }

    pub fn to_affine(&self, p: &Rp) -> (Big, Big) {
        if p.z == Big::from_u64(1) {
            return (p.x, p.y);
        }
        let zi = self.m.inv(&p.z);
        (self.m.mul(&p.x, &zi), self.m.mul(&p.y, &zi))
    }

    pub fn on_curve(&self, p: &Rp) -> bool {
        let m = &self.m;
        let xx = m.mul(&p.x, &p.x);
        let yy = m.mul(&p.y, &p.y);
        let zz = m.mul(&p.z, &p.z);
        let l = m.mul(&m.add(&xx, &yy), &zz);
        let r = m.add(&m.mul(&zz, &zz), &m.mul(&self.d, &m.mul(&xx, &yy)));
        !p.z.is_zero() && l == r
    }
}

// ------------------------------------------------------------ observation

/// The point held by the library, checked to be valid extended coordinates.
pub fn read<C: Crv>(what: &str, p: &Ext<C>) -> Result<Rp, String> {
    let ci = C::cinfo();
    let m = &ci.m;
    let (x, y, z, t) = coords(p);
    let x = value(&x).map_err(|e| format!("{}: X {}", what, e))?;
    let y = value(&y).map_err(|e| format!("{}: Y {}", what, e))?;
    let z = value(&z).map_err(|e| format!("{}: Z {}", what, e))?;
    let t = value(&t).map_err(|e| format!("{}: T {}", what, e))?;
    if z.is_zero() {
        return Err(format!("{}: Z is 0 (X = {:?}, Y = {:?}, T = {:?})", what, x, y, t));
    }
    if m.mul(&x, &y) != m.mul(&z, &t) {
        return Err(format!("{}: X Y differs from Z T (X = {:?}, Y = {:?}, Z = {:?}, T = {:?})", what, x, y, z, t));
    }
    let r = Rp { x, y, z };
    if !ci.on_curve(&r) {
        return Err(format!("{}: not on the curve (X = {:?}, Y = {:?}, Z = {:?})", what, x, y, z));
    }
    Ok(r)
}

pub fn expect_pt<C: Crv>(what: &str, p: &Ext<C>, want: &Rp) -> Result<(), String> {
    let r = read(what, p)?;
    let ci = C::cinfo();
    if !ci.eq(&r, want) {
        let (a, b) = (ci.to_affine(&r), ci.to_affine(want));
        return Err(format!("{}: got ({:?}, {:?}), expected ({:?}, {:?})", what, a.0, a.1, b.0, b.1));
    }
    Ok(())
}

// -------------------------------------------------------------- generator

#[derive(Clone)]
pub struct Pt<C: Crv> {
    pub p: Ext<C>,
    pub r: Rp,
}

/// An affine or projective reference point.
pub fn gen_ref<C: Crv>(c: &mut Ctx) -> Rp {
    let ci = C::cinfo();
    let m = &ci.m;
    let pick = |c: &mut Ctx| ci.affine(&ci.pool[c.below(ci.pool.len())]);
    let tors = |c: &mut Ctx| ci.affine(&ci.torsion[c.below(ci.torsion.len())]);
    match c.below(12) {
        0 | 1 | 2 | 3 => pick(c),
        4 => {
            c.label("small-order point");
            tors(c)
        }
        5 => {
            let (a, b) = (pick(c), tors(c));
            ci.add(&a, &b)
        }
        6 | 7 => {
            let (a, b) = (pick(c), pick(c));
            ci.add(&a, &b)
        }
        8 => {
            let (a, b) = (pick(c), pick(c));
            ci.add(&a, &ci.neg(&b))
        }
        9 => ci.neg(&pick(c)),
        _ => {
            // a fresh one with a chosen coordinate
            let i = C::S::info();
            let mut v = gen_value(c, &i);
            let (swap, neg) = (c.flag(), c.flag());
            loop {
                if let Some(w) = other(m, &ci.d, &v) {
                    let w = if neg { m.neg(&w) } else { w };
                    return ci.affine(&if swap { (w, v) } else { (v, w) });
                }
                v = m.add(&v, &Big::from_u64(1));
            }
        }
    }
}

/// A library point made by `init`.
pub fn by_init<C: Crv>(c: &mut Ctx, a: &(Big, Big)) -> Ext<C> {
    let mut p = Ext::<C>::zero();
    p.init(gen_rep::<C::S>(c, &a.0), gen_rep::<C::S>(c, &a.1));
    p
}

/// A library point standing for `r`, made by an addition.
fn by_sum<C: Crv>(c: &mut Ctx, r: &Rp) -> Ext<C> {
    let ci = C::cinfo();
    let b = ci.affine(&ci.pool[c.below(ci.pool.len())]);
    let a = ci.add(r, &ci.neg(&b));
    let (pa, pb) = (by_init::<C>(c, &ci.to_affine(&a)), by_init::<C>(c, &ci.to_affine(&b)));
    pa + pb
}

/// A library point standing for `r`, in some scaling and representation.
pub fn gen_form<C: Crv>(c: &mut Ctx, r: &Rp) -> Ext<C> {
    let ci = C::cinfo();
    let m = &ci.m;
    match c.below(8) {
        0 | 1 => by_init(c, &ci.to_affine(r)),
        2 => {
            c.label("made by adding");
            by_sum(c, r)
        }
        3 => {
            let p = by_init::<C>(c, &ci.to_affine(r));
            if c.chance(1, 16) {
                // as the ladder leaves it
                c.label("made by scalar multiplication");
                let mut q = p;
                q.scalar_mult(&mut C::S::one());
                return q;
            }
            c.label("made by adding");
            p + Ext::<C>::zero()
        }
        4 => {
            // Z = 1 and every coordinate in any representation
            let a = ci.to_affine(r);
            let one = Big::from_u64(1);
            let t = m.mul(&a.0, &a.1);
            let (x, y, z, t) = (gen_rep(c, &a.0), gen_rep(c, &a.1), gen_rep(c, &one), gen_rep(c, &t));
            assemble(x, y, z, t).unwrap_or_else(|| by_init(c, &a))
        }
        _ => {
            c.label("scaled coordinates");
            let i = C::S::info();
            let mut l = gen_value(c, &i);
            if c.chance(1, 4) {
                // Z such that X, Y or T has the chosen value instead
                let a = ci.to_affine(r);
                let k = [a.0, a.1, m.mul(&a.0, &a.1)][c.below(3)];
                if !k.is_zero() {
                    c.label("scaled to a chosen X, Y or T");
                    l = m.mul(&l, &m.inv(&k));
                }
            }
            if l.is_zero() {
                l = Big::from_u64(1);
            }
            scaled(c, r, &l)
        }
    }
}

/// A library point standing for `r` with the given Z.
pub fn scaled<C: Crv>(c: &mut Ctx, r: &Rp, l: &Big) -> Ext<C> {
    let ci = C::cinfo();
    let m = &ci.m;
    let a = ci.to_affine(r);
    let (x, y) = (m.mul(&a.0, l), m.mul(&a.1, l));
    let t = m.mul(&x, &a.1);
    let one = C::S::one();
    let product = c.flag();
    let f = |v: &Big| {
        let e = elem::<C::S>(v);
        if product { e * one } else { e }
    };
    assemble(f(&x), f(&y), f(l), f(&t)).unwrap_or_else(|| by_sum(c, r))
}

pub fn point_of<C: Crv>(c: &mut Ctx, name: &str, r: &Rp) -> Pt<C> {
    let p = gen_form::<C>(c, r);
    held(c, name, r, p)
}

/// `p`, which stands for `r`, described and counted.
pub fn held<C: Crv>(c: &mut Ctx, name: &str, r: &Rp, p: Ext<C>) -> Pt<C> {
    let ci = C::cinfo();
    let a = ci.to_affine(r);
    c.key(&a);
    let (x, y, z, t) = coords(&p);
    c.key(&[raw(&x), raw(&y), raw(&z), raw(&t)]);
    if !ci.is_zero(r) {
        c.nontrivial = true;
    }
    c.say(|| {
        format!("{} = ({:?}, {:?}) stored as X = {:?}, Y = {:?}, Z = {:?}, T = {:?}", name, a.0, a.1, x, y, z, t)
    });
    Pt { p, r: *r }
}

pub fn point<C: Crv>(c: &mut Ctx, name: &str) -> Pt<C> {
    let r = gen_ref::<C>(c);
    point_of(c, name, &r)
}

/// A scalar, as the integer below the prime.
pub fn gen_scalar<C: Crv>(c: &mut Ctx) -> Big {
    let ci = C::cinfo();
    let m = &ci.m;
    let i = C::S::info();
    let near = |c: &mut Ctx, v: Big| {
        let d = Big::from_u64(c.draw(9));
        if c.flag() { m.sub(&m.red(&v), &d) } else { m.red(&v.add(&d)) }
    };
    match c.below(12) {
        0 => Big::from_u64(c.draw(20)),
        1 => m.p.sub(&Big::from_u64(1 + c.draw(20))),
        2 => {
            // around a small multiple of the order
            let mut v = Big::ZERO;
            let k = 1 + c.draw(ci.cofactor);
            for _ in 0..k {
                v = v.add(&ci.order);
            }
            if v >= m.p {
                v = ci.order;
            }
            near(c, v)
        }
        3 => {
            let k = c.below(m.n);
            near(c, Big::pow2(k))
        }
        4 => m.red(&Big::from_u64(c.draw(0))),
        5 => near(c, m.p.shr(1)),
        _ => gen_value(c, &i),
    }
}
