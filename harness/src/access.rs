//! Reading and setting the stored coordinates of a point.
//!
//! Normally through the guarded hook. If the library does not compile with it
//! (a change renamed the coordinates, or gave points another field), the
//! harness is built without, and finds the coordinates in memory.

use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};

#[cfg(verif_hooks)]
pub fn coords<C: EdwardsCurve>(p: &EdwardsExtended<C>) -> (C::Scalar, C::Scalar, C::Scalar, C::Scalar) {
    p.verif_coords()
}

/// A point with the given coordinates; None if only the library can make one.
#[cfg(verif_hooks)]
pub fn assemble<C: EdwardsCurve>(
    x: C::Scalar,
    y: C::Scalar,
    z: C::Scalar,
    t: C::Scalar,
) -> Option<EdwardsExtended<C>> {
    Some(EdwardsExtended::<C>::verif_from_coords(x, y, z, t))
}

#[cfg(not(verif_hooks))]
pub use self::by_layout::{assemble, coords};

#[cfg(not(verif_hooks))]
mod by_layout {
    use super::*;
    use safecurves_rust::curve::e_222::E222;
    use safecurves_rust::curve::point::Point;
    use safecurves_rust::field::mod_e222_117::Mod_e222_117;
    use safecurves_rust::field::prime_field::PrimeField;
    use safecurves_rust::normalize::NormalizeEq;
    use std::mem::size_of;
    use std::sync::OnceLock;

    /// Coordinate k is at lead + slot[k] * (size of a scalar).
    struct Layout {
        lead: usize,
        slot: [usize; 4],
    }

    fn layout() -> &'static Layout {
        static L: OnceLock<Layout> = OnceLock::new();
        L.get_or_init(|| find().unwrap_or(Layout { lead: 0, slot: [0, 1, 2, 3] }))
    }

    fn find() -> Option<Layout> {
        type S = Mod_e222_117;
        type P = EdwardsExtended<E222>;
        let s = size_of::<S>();
        let one = S::one();
        let (x, y) = (one.small_mul(0x1234567), one.small_mul(0x89abcd).squared());
        let mut p: P = Point::zero();
        p.init(x, y);
        let mut off = [0; 4];
        for (k, want) in [x, y, one, x * y].iter().enumerate() {
            off[k] = (0..=size_of::<P>() - s).step_by(8).find(|&o| {
                let mut v = unsafe { slot::<P, S>(&p, o) };
                v.normalize_eq(&mut { *want })
            })?;
        }
        let lead = off[0] % s;
        if off.iter().any(|o| o % s != lead) {
            return None;
        }
        Some(Layout { lead, slot: [off[0] / s, off[1] / s, off[2] / s, off[3] / s] })
    }

    unsafe fn slot<P, S: Copy>(p: &P, off: usize) -> S {
        assert!(off + size_of::<S>() <= size_of::<P>());
        *((p as *const P as *const u8).add(off) as *const S)
    }

    pub fn coords<C: EdwardsCurve>(p: &EdwardsExtended<C>) -> (C::Scalar, C::Scalar, C::Scalar, C::Scalar) {
        let l = layout();
        let at = |k: usize| unsafe { slot(p, l.lead + l.slot[k] * size_of::<C::Scalar>()) };
        (at(0), at(1), at(2), at(3))
    }

    pub fn assemble<C: EdwardsCurve>(
        x: C::Scalar,
        y: C::Scalar,
        z: C::Scalar,
        t: C::Scalar,
    ) -> Option<EdwardsExtended<C>> {
        if size_of::<EdwardsExtended<C>>() != 4 * size_of::<C::Scalar>() {
            return None;
        }
        let l = layout();
        let mut p: EdwardsExtended<C> = Point::zero();
        for (k, v) in [x, y, z, t].iter().enumerate() {
            let off = l.lead + l.slot[k] * size_of::<C::Scalar>();
            unsafe { *((&mut p as *mut EdwardsExtended<C> as *mut u8).add(off) as *mut C::Scalar) = *v }
        }
        Some(p)
    }
}
