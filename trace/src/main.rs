//! Control flow and array positions that do not depend on values.
//!
//! This binary is built with LLVM's edge and index instrumentation
//! (-sanitizer-coverage-level=3 -sanitizer-coverage-trace-pc-guard
//! -sanitizer-coverage-trace-geps) and without optimisation, so that every
//! branch of the source is an edge and every array position that is not a
//! constant is reported. While recording is on, the sequence of edges and
//! positions is hashed; two calls of an operation on different values must
//! give the same hash.

use safecurves_rust::curve::point::Point;
use scharness::cli::{self, Plan};
use scharness::curve::{self, Crv, Ext};
use scharness::engine::{unit, Ctx, Res, Unit};
use scharness::field::{gen_i32, gen_rep, gen_value, operand, partner, Fld, Normalize, PrimeFieldMask};
use scharness::{each_curve, each_field};
use std::hint::black_box;
use std::sync::atomic::{AtomicUsize, Ordering};

// -------------------------------------------------------------- recording
// Each thread records into a slot of its own, found by the address of its
// thread block: the callback must make no calls (they would be instrumented,
// and come back here), which rules thread_local! out.

const SLOTS: usize = 64;

#[derive(Clone, Copy)]
struct Slot {
    owner: usize,
    on: bool,
    hash: u64,
    edges: u64,
    indices: u64,
}

static mut NEXT: u32 = 1;
static mut SLOT: [Slot; SLOTS] = [Slot { owner: 0, on: false, hash: 0, edges: 0, indices: 0 }; SLOTS];
static USED: AtomicUsize = AtomicUsize::new(0);

thread_local! { static MINE: usize = slot(); }

fn slot() -> usize {
    let me = this_thread();
    unsafe {
        // The block of a thread that has ended may serve a new one.
        for i in 0..SLOTS {
            if SLOT[i].owner == me {
                return i;
            }
        }
        let i = USED.fetch_add(1, Ordering::SeqCst);
        assert!(i < SLOTS, "too many threads");
        SLOT[i].owner = me;
        i
    }
}

macro_rules! thread_block {
    () => {{
        let t: usize;
        std::arch::asm!("mov {}, fs:0", out(reg) t, options(nostack, readonly, preserves_flags));
        t
    }};
}

fn this_thread() -> usize {
    unsafe { thread_block!() }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while (p as usize) < (stop as usize) {
        if *p == 0 {
            *p = NEXT;
            NEXT += 1;
        }
        p = (p as usize + 4) as *mut u32;
    }
}

macro_rules! note {
    ($value:expr, $count:ident) => {{
        let me = thread_block!();
        let mut i = 0;
        while i < SLOTS {
            let o = SLOT[i].owner;
            if o == me {
                if SLOT[i].on {
                    let h = SLOT[i].hash;
                    let h = (h << 23) | (h >> 41);
                    // Odd multiplications of 32-bit halves cannot overflow 64 bits.
                    let h = h ^ $value;
                    let lo = (h & 0xffff_ffff) * 0x9e3779b1;
                    let hi = (h >> 32) * 0x85ebca6b;
                    let h = lo ^ ((hi << 32) | (hi >> 32));
                    SLOT[i].hash = h ^ (h >> 29);
                    SLOT[i].$count += 1;
                }
                return;
            }
            if o == 0 {
                return;
            }
            i += 1;
        }
    }};
}

// An edge of the control-flow graph is taken.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    note!(*guard as u64, edges)
}

// An address is computed from an index that is not a constant.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_gep(index: usize) {
    note!(index as u64 ^ 0x5bd1_e995_0000_0000, indices)
}

/// A hash over edges and indices in order, and their numbers.
type Trace = (u64, u64, u64);

/// The trace of the edges executed by `f`.
fn record<R, F: FnMut() -> R>(mut f: F) -> Trace {
    unsafe {
        let i = MINE.with(|m| *m);
        SLOT[i].hash = 0x1234;
        SLOT[i].edges = 0;
        SLOT[i].indices = 0;
        SLOT[i].on = true;
        let r = f();
        SLOT[i].on = false;
        let s = SLOT[i];
        black_box(&r);
        (s.hash, s.edges, s.indices)
    }
}

fn same(what: &str, a: Trace, b: Trace) -> Res {
    if a != b {
        return Err(format!(
            "{}: executes different branches or indexes arrays at different positions for the two sets of values \
({} and {} edges, {} and {} indices, hashes {:x} and {:x})",
            what, a.1, b.1, a.2, b.2, a.0, b.0
        ));
    }
    if a.1 == 0 {
        // Nothing recorded: the build is not instrumented.
        panic!("no edge was recorded in {}", what);
    }
    Ok(())
}

// ----------------------------------------------------------------- fields

fn depth(c: &mut Ctx) -> usize {
    [0, 1, 2, 3][c.below(4)]
}

fn f18<F: Fld>(u: &mut Vec<Unit>, n: usize) {
    let name = F::info().name;
    macro_rules! op {
        ($what:expr, $n:expr, |$a:ident, $b:ident, $k:ident, $i:ident, $bit:ident| $e:expr) => {
            u.push(unit(format!("{}/{}", name, $what), $n, 200, |c| {
                let k1 = gen_i32(c);
                let i1 = c.below(F::info().m.n);
                let mut hs = Vec::new();
                for set in ["first", "second"] {
                    c.say(|| format!("{} values:", set));
                    let d = depth(c);
                    let a = operand::<F>(c, "a", d);
                    let d = depth(c);
                    let b = partner::<F>(c, "b", &a, d);
                    let bit1 = c.flag();
                    c.say(|| format!("k = {}, index = {}, bit = {}", k1, i1, bit1));
                    let ($k, $i) = (k1, i1);
                    #[allow(unused_mut, unused_variables)]
                    {
                        let mut $a = a.x;
                        let mut $b = b.x;
                        let $bit = bit1;
                        let _ = ($k, $i, $bit);
                        hs.push(record(|| $e));
                    }
                }
                c.nontrivial = true;
                same($what, hs[0], hs[1])
            }));
        };
    }
    op!("a + b", n, |a, b, k, i, bit| a + b);
    op!("a += b", n, |a, b, k, i, bit| { a += b; a });
    op!("a - b", n, |a, b, k, i, bit| a - b);
    op!("a -= b", n, |a, b, k, i, bit| { a -= b; a });
    op!("-a", n, |a, b, k, i, bit| -a);
    op!("a * b", n, |a, b, k, i, bit| a * b);
    op!("a *= b", n, |a, b, k, i, bit| { a *= b; a });
    op!("squared", n, |a, b, k, i, bit| a.squared());
    op!("square", n, |a, b, k, i, bit| { a.square(); a });
    op!("a + k", n, |a, b, k, i, bit| a + k);
    op!("a - k", n, |a, b, k, i, bit| a - k);
    op!("a * k", n, |a, b, k, i, bit| a * k);
    op!("small_add", n, |a, b, k, i, bit| a.small_add(k));
    op!("small_sub", n, |a, b, k, i, bit| a.small_sub(k));
    op!("small_mul", n, |a, b, k, i, bit| a.small_mul(k));
    op!("small_mul_assign", n, |a, b, k, i, bit| { a.small_mul_assign(k); a.small_add_assign(k); a.small_sub_assign(k); a });
    op!("every spelling", n / 3 + 1, |a, b, k, i, bit| F::binary_forms(&a, &b));
    op!("every spelling with k", n / 3 + 1, |a, b, k, i, bit| {
        (F::digit_forms(&a, k), F::digit_forms(&a, k as i16 as i32), F::digit_forms(&a, k as i8 as i32))
    });
    op!("every division", n / 30 + 1, |a, b, k, i, bit| F::div_forms(&a, &b));
    op!("compare", n, |a, b, k, i, bit| {
        let mut c = a;
        let mut d = b;
        let e = c.normalize_eq(&mut d);
        (e, a.normalize_self_eq(&d))
    });
    op!("normalize", n, |a, b, k, i, bit| { a.normalize(); a });
    op!("pack", n, |a, b, k, i, bit| { let mut o = [0u8; 80]; a.pack(&mut o[..F::nbytes() as usize]); o });
    op!("packed", n, |a, b, k, i, bit| a.packed_vec().len());
    op!("bit", n, |a, b, k, i, bit| a.bit(i));
    op!("normalize_bitand", n, |a, b, k, i, bit| { a.normalize_bitand(&mut b); a });
    op!("normalize_bitor", n, |a, b, k, i, bit| { a.normalize_bitor(&mut b); a });
    op!("normalize_self_bitand", n, |a, b, k, i, bit| { a.normalize_self_bitand(&b); a });
    op!("normalize_self_bitor", n, |a, b, k, i, bit| { a.normalize_self_bitor(&b); a });
    op!("normalized_bitand", n, |a, b, k, i, bit| { a.normalized_bitand(&b); a });
    op!("normalized_bitor", n, |a, b, k, i, bit| { a.normalized_bitor(&b); a });
    op!("fill", n, |a, b, k, i, bit| { a.fill(bit); a });
    op!("filled", n, |a, b, k, i, bit| F::filled(bit));
    op!("mask", n, |a, b, k, i, bit| { let mut m = <F::Mask as PrimeFieldMask>::filled(bit); m.fill(!bit); m });
    op!("select", n, |a, b, k, i, bit| {
        a.normalized_bitand(&F::filled(bit));
        b.normalized_bitand(&F::filled(!bit));
        a.normalized_bitor(&b);
        a
    });
    let few = n / 12 + 2;
    op!("inverted", few, |a, b, k, i, bit| a.inverted());
    op!("invert", few, |a, b, k, i, bit| { a.invert(); a });
    op!("a / b", few, |a, b, k, i, bit| a / b);
    op!("legendre", few, |a, b, k, i, bit| a.legendre());
    op!("sqrt", few, |a, b, k, i, bit| a.sqrt());
    u.push(unit(format!("{}/unpack and read", name), n, 200, |c| {
        let inf = F::info();
        let idx = c.below(inf.m.n);
        let mut hs = Vec::new();
        for set in ["first", "second"] {
            let v = gen_value(c, &inf);
            let w = gen_value(c, &inf);
            c.key(&(v, w));
            c.say(|| format!("{} values: {:?}, over {:?}", set, v, w));
            let bytes = v.to_le(inf.nbytes);
            let mut old: F = gen_rep(c, &w);
            let mut out = [0u8; 80];
            hs.push(record(|| {
                let x = F::unpacked(&bytes);
                old.unpack(&bytes);
                x.pack_normalized(&mut out[..inf.nbytes]);
                (x, old, x.bit_normalized(idx))
            }));
        }
        c.nontrivial = true;
        same("unpack and read", hs[0], hs[1])
    }));
}

// ----------------------------------------------------------------- curves

fn c08<C: Crv>(u: &mut Vec<Unit>, n: usize, muls: usize) {
    let name = C::cinfo().name;
    macro_rules! op {
        ($what:expr, $n:expr, |$p:ident, $q:ident, $s:ident| $e:expr) => {
            u.push(unit(format!("{}/{}", name, $what), $n, 2000, |c| {
                let mut hs = Vec::new();
                for set in ["first", "second"] {
                    c.say(|| format!("{} values:", set));
                    let p1 = curve::point::<C>(c, "P");
                    let q1 = match c.below(4) {
                        0 => p1.clone(),
                        1 => curve::point_of::<C>(c, "Q", &C::cinfo().neg(&p1.r)),
                        _ => curve::point::<C>(c, "Q"),
                    };
                    let k = curve::gen_scalar::<C>(c);
                    let s1: C::S = gen_rep(c, &k);
                    c.key(&k);
                    c.say(|| format!("k = {:?}", k));
                    #[allow(unused_mut, unused_variables)]
                    {
                        let mut $p: Ext<C> = p1.p;
                        let mut $q: Ext<C> = q1.p;
                        let mut $s = s1;
                        hs.push(record(|| $e));
                    }
                }
                c.nontrivial = true;
                same($what, hs[0], hs[1])
            }));
        };
    }
    op!("P + Q", n, |p, q, s| p + q);
    op!("&P + &Q", n, |p, q, s| &p + &q);
    op!("P += Q", n, |p, q, s| { p += q; p });
    op!("P += &Q", n, |p, q, s| { p += &q; p });
    op!("double", n, |p, q, s| { p.double(); p });
    op!("doubled", n, |p, q, s| p.doubled());
    op!("triple", n, |p, q, s| { p.triple(); p });
    op!("tripled", n, |p, q, s| p.tripled());
    op!("scalar_mult", muls, |p, q, s| { p.scalar_mult(&mut s); p });
    u.push(unit(format!("{}/scalar_mult_normalized", name), muls, 2000, |c| {
        let mut hs = Vec::new();
        for set in ["first", "second"] {
            c.say(|| format!("{} values:", set));
            let mut p = curve::point::<C>(c, "P").p;
            let k = curve::gen_scalar::<C>(c);
            let mut s: C::S = gen_rep(c, &k);
            s.normalize();
            c.key(&k);
            c.say(|| format!("k = {:?}", k));
            hs.push(record(|| {
                p.scalar_mult_normalized(&s);
                p
            }));
        }
        c.nontrivial = true;
        same("scalar_mult_normalized", hs[0], hs[1])
    }));
}

// ------------------------------------------------------------------ table

fn plan(id: &str, s: usize) -> Option<Plan> {
    let mut u: Vec<Unit> = Vec::new();
    let v = &mut u;
    match id {
        "F18" => each_field!(f18(v, 2_000 * s)),
        "C08" => each_curve!(c08(v, 250 * s, 160 * s)),
        _ => return None,
    }
    Some(Plan {
        units: u,
        rule: "Each case draws two independent sets of operands (fields: any value in any reachable representation, mask bit, \
same machine integer and bit index; curves: any points and scalar) and records the sequence of control-flow edges and of array positions that one operation \
takes on each, in an unoptimised build with LLVM edge and index instrumentation of the library; the two sequences must be equal. \
Every case compares two independently drawn sets and counts as non-trivial; distinct means distinct operands.",
        assumptions: vec![
            "branches of the unoptimised build are the branches of the program; what an optimising back end makes of them is not judged",
            "edge sequences are compared through a 64-bit hash and their length",
        ],
        exhaustive: false,
        threads: 8,
    })
}

fn main() {
    cli::main(plan);
}
