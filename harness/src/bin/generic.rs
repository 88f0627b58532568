//! The Edwards arithmetic over fields and curves other than the built-in
//! five: a tiny field with a modulus chosen at run time (a straightforward
//! implementation of the field interface that leaves results unreduced in
//! arbitrary ways), and the library's nine fields with an arbitrary d.

use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use scharness::access::coords;
use scharness::big::Big;
use scharness::cli::{self, Plan};
use scharness::each_field;
use scharness::engine::{unit, Res, Unit};
use scharness::field::{elem, gen_rep, gen_value, value, Fld};
use std::cell::Cell;
use std::marker::PhantomData;

// A change to the interface may leave this implementation of it behind; the
// check then does with the fields of the library.
#[cfg(not(verif_no_tiny))]
#[path = "../tiny/mod.rs"]
mod tiny;


// -------------------------------------- the library's fields, arbitrary d

thread_local! {
    static DBIG: Cell<(Big, u8)> = Cell::new((Big::ZERO, 0));
}

struct AnyD<F>(PhantomData<F>);

impl<F> Clone for AnyD<F> {
    fn clone(&self) -> Self {
        *self
    }
}

impl<F> Copy for AnyD<F> {}

impl<F: Fld> EdwardsCurve for AnyD<F> {
    type Scalar = F;
    fn d_val() -> F {
        let (d, how) = DBIG.with(|x| x.get());
        let e: F = elem(&d);
        match how {
            0 => e,
            1 => e - F::modulus(),
            2 => e.small_add(1) + F::m_one(),
            _ => e * F::one(),
        }
    }
}

fn any_d<F: Fld>(u: &mut Vec<Unit>, n: usize) {
    fn read<F: Fld>(what: &str, d: &Big, p: &EdwardsExtended<AnyD<F>>) -> Result<[Big; 3], String> {
        let m = F::info().m;
        let (x, y, z, t) = coords(p);
        let (x, y, z, t) = (value(&x)?, value(&y)?, value(&z)?, value(&t)?);
        if z.is_zero() || m.mul(&x, &y) != m.mul(&z, &t) {
            return Err(format!("{}: invalid coordinates {:?} {:?} {:?} {:?} (d = {:?})", what, x, y, z, t, d));
        }
        Ok([x, y, z])
    }
    u.push(unit(format!("{}/any-d", F::info().name), n, 4000, |c| {
        let i = F::info();
        let m = i.m;
        let one = Big::from_u64(1);
        let (mut x, y) = (gen_value(c, &i), gen_value(c, &i));
        // y = +-1 would give d = 1, whatever x is.
        let y = if y.is_zero() || y == one || y == m.neg(&one) { m.int(7) } else { y };
        let d = loop {
            let (xx, yy) = (m.mul(&x, &x), m.mul(&y, &y));
            let den = m.mul(&xx, &yy);
            let num = m.sub(&m.add(&xx, &yy), &one);
            // num/den is a non-square exactly when num*den is
            if m.jacobi(&m.mul(&num, &den)) == -1 {
                break m.mul(&num, &m.inv(&den));
            }
            x = m.add(&x, &one);
        };
        let how = c.below(4) as u8;
        DBIG.with(|z| z.set((d, how)));
        c.key(&(x, y, d, how));
        c.nontrivial = true;
        c.say(|| format!("point ({:?}, {:?}), d = {:?} in form {}", x, y, d, how));
        // The reference law, projective.
        let ci = scharness::curve::CInfo {
            name: "", m, d, base: (x, y), order: one, cofactor: 0, torsion: Vec::new(), pool: Vec::new(),
        };
        let want = |what: &str, p: &EdwardsExtended<AnyD<F>>, w: &scharness::curve::Rp| -> Res {
            let [px, py, pz] = read(what, &d, p)?;
            let r = scharness::curve::Rp { x: px, y: py, z: pz };
            if !ci.eq(&r, w) {
                return Err(format!("{}: got {:?}, expected {:?}", what, ci.to_affine(&r), ci.to_affine(w)));
            }
            Ok(())
        };
        let a = ci.affine(&(x, y));
        let mut p = EdwardsExtended::<AnyD<F>>::zero();
        p.init(gen_rep(c, &x), gen_rep(c, &y));
        want("P", &p, &a)?;
        let a2 = ci.add(&a, &a);
        let a3 = ci.add(&a2, &a);
        want("2P", &p.doubled(), &a2)?;
        want("3P", &p.tripled(), &a3)?;
        want("P + P", &(p + p), &a2)?;
        want("2P + P", &(p.doubled() + p), &a3)?;
        want("3P + 2P", &(p.tripled() + p.doubled()), &ci.add(&a3, &a2))?;
        // with points of order 2 and 4
        let mone = m.neg(&one);
        for t in [(Big::ZERO, mone), (one, Big::ZERO), (mone, Big::ZERO)] {
            let mut q = EdwardsExtended::<AnyD<F>>::zero();
            q.init(elem(&t.0), elem(&t.1));
            want("P + T", &(p + q), &ci.add(&a, &ci.affine(&t)))?;
        }
        let k = gen_value(c, &i);
        c.key(&k);
        c.say(|| format!("k = {:?}", k));
        let mut s: F = gen_rep(c, &k);
        let mut q = p.tripled();
        q.scalar_mult(&mut s);
        want("k (3P)", &q, &ci.mul(&k, &a3))
    }));
}

// ------------------------------------------------------------------ table

fn plan(id: &str, s: usize) -> Option<Plan> {
    if id != "C09" {
        return None;
    }
    let mut u: Vec<Unit> = Vec::new();
    #[cfg(not(verif_no_tiny))]
    tiny::units(&mut u, s);
    let v = &mut u;
    each_field!(any_d(v, 900 * s));
    Some(Plan {
        units: u,
        rule: "Curves over a field with a modulus chosen at run time, whose implementation of the interface leaves every result \
plus a pseudo-random multiple of the modulus: for every prime up to 61 (101 in the thorough tier) and every non-square d, and \
for sampled primes up to 251, all points, all pairs of points and all scalars below the prime in pseudo-random scalings; for random primes below 2^31 \
and random non-square d, random points (also equal, opposite, of small order) and scalars; and the nine fields of the library with a random \
non-square d. The oracle is the affine law with inversions. Every case is non-trivial; distinct means distinct (p, d, forms, points).",
        assumptions: vec![
            "the harness's small field implements the interface as documented",
            "stored coordinates are read and set through the guarded hook verif_coords / verif_from_coords",
        ],
        exhaustive: false,
        threads: 8,
    })
}

fn main() {
    cli::main(plan);
}
