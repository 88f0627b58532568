#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
FIELDS = ["src/field/mod_e221_3.rs", "src/field/mod_e222_117.rs", "src/field/mod_e251_9.rs",
          "src/field/mod_e255_19.rs", "src/field/mod_e382_105.rs", "src/field/mod_e383_187.rs",
          "src/field/mod_e414_17.rs", "src/field/mod_e511_187.rs", "src/field/mod_e521_1.rs"]
ED = "src/curve/edwards.rs"
REP = ("An element may be held in any of many representations: limbs in normal form, a value at or above the "
       "modulus, or a carry or borrow parked in the top word.")
OUT = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

STATE = [("limb array", REP, "the i64 array inside every Mod_e* type")]
SAMPLE = "The unit tests use about ten fixed constants per field, nearly always in normal form; "

prop("F01", "Field addition and subtraction are exact for every operand",
     "For each of the nine fields, x + y and x - y denote the sum and the difference of the operands modulo the prime, "
     "for all operands and in every representation that earlier operations of the library can leave them in.",
     ["inputs"], "all pairs of elements of each field, each in any reachable representation",
     SAMPLE + "carries that ripple through several words, or a parked carry or borrow, appear in none of them.",
     FIELDS, [("add_assign / sub_assign carry chain", "each field file")], STATE, ["Pack::pack"])
prop("F02", "Field negation is exact for every operand",
     "For each of the nine fields, -x denotes the additive inverse of x modulo the prime for every element in every "
     "reachable representation, so x + (-x) is zero and -(-x) is x.",
     ["inputs"], "all elements of each field, in any reachable representation",
     "No existing test negates anything.", FIELDS, [("Neg impl", "each field file")], STATE, ["Pack::pack"])
prop("F03", "Field multiplication and squaring are exact for every operand",
     "For each of the nine fields, x * y denotes the product modulo the prime and squaring x denotes x * x, for all "
     "operands and in every reachable representation.",
     ["inputs"], "all pairs of elements of each field, each in any reachable representation",
     SAMPLE + "an error in one partial product, mask or carry needs particular operand digits to show.",
     FIELDS, [("mul_assign and square: partial products, carry chain, pseudo-Mersenne folding", "each field file")],
     STATE, ["Pack::pack"])
prop("F04", "Adding, subtracting, multiplying by machine integers is exact",
     "For each of the nine fields and every signed 8-, 16- or 32-bit integer k including the extreme ones, x + k, x - k "
     "and x * k denote the exact result modulo the prime, for x in every reachable representation.",
     ["inputs"], "all elements in any reachable representation, all i8, i16 and i32 values",
     "Existing tests use a handful of small constants; large magnitudes, negative digits on boundary values and lazy operands are never used.",
     FIELDS, [("small_add_assign, small_sub_assign, small_mul_assign", "each field file")], STATE, ["Pack::pack"])
prop("F05", "Inversion and division are exact for non-zero operands",
     "For each of the nine fields and every non-zero x in any reachable representation, the inverse of x multiplied by x "
     "is one, and y / x is the unique element whose product with x is y.",
     ["inputs"], "all non-zero elements (and all dividends), in any reachable representation",
     SAMPLE + "the addition chain for p-2 is only right for all inputs if every step is.",
     FIELDS, [("invert / inverted addition chain, Div", "each field file")], STATE, ["Pack::pack"])
prop("F06", "The Legendre symbol is right for every non-zero element",
     "For each of the nine fields and every non-zero x in any reachable representation, the Legendre symbol operation "
     "returns one if x has a square root in the field and minus one if it has none.",
     ["inputs"], "all non-zero elements in any reachable representation",
     SAMPLE + "each constant is a single sample.", FIELDS, [("legendre powering", "each field file")], STATE, ["Pack::pack"])
prop("F07", "Square roots of quadratic residues square back",
     "For each of the nine fields and every non-zero quadratic residue x in any reachable representation, the square "
     "root operation returns an element whose square is x.",
     ["inputs"], "all non-zero quadratic residues in any reachable representation",
     SAMPLE + "in the field of 2^255-19 the root must also be corrected by a fourth root of unity for half of the residues.",
     FIELDS, [("sqrt powering; quartic-residue correction where p = 5 mod 8", "each field file")], STATE, ["Pack::pack"])
prop("F08", "Packing and unpacking are exact, canonical inverses",
     "For each of the nine fields, unpacking the little-endian encoding of any integer below the prime and packing again "
     "gives the same bytes; packing any element, however it is represented, gives the unique encoding below the prime of the "
     "integer it stands for. Unpacking over an existing element leaves no trace of its old content.",
     ["inputs"], "all byte strings encoding integers below the prime; all elements in any reachable representation; any previous content of the target",
     SAMPLE + "a wrong shift or mask touches only some bits of some byte.", FIELDS + ["src/pack.rs"],
     [("pack, pack_normalized, unpack, unpacked, packed", "each field file")], STATE, ["Pack::pack", "Pack::unpack"])
prop("F09", "Normalisation preserves the value and yields one normal form",
     "For each of the nine fields, normalising an element in any reachable representation leaves the integer modulo the prime "
     "unchanged and produces the same stored form as any other route to that integer, with a value below the prime; "
     "normalising again changes nothing.",
     ["inputs"], "all elements in any reachable representation, in particular values at and around the modulus and powers of two",
     "Tests only ever compare through normalisation on a few values; values at or above the modulus and parked carries are not constructed.",
     FIELDS + ["src/normalize.rs"], [("normalize", "each field file")], STATE, ["pack_normalized", "Debug", "Pack::pack"])
prop("F10", "Equality holds exactly for congruent elements",
     "For each of the nine fields, comparing two elements with normalisation of both sides reports equality exactly when they "
     "stand for the same integer modulo the prime, whatever their representations; comparing with normalisation of one side does "
     "the same when the other side is already in normal form. A comparison does not change the integers the operands stand for.",
     ["inputs"], "all pairs of elements in any reachable representation, in particular equal values held differently and values differing in a single bit",
     "Tests compare equal elements; a comparison that ignored one word would pass all of them.",
     FIELDS + ["src/normalize.rs"], [("normalize_eq, normalize_self_eq", "each field file")], STATE)
prop("F11", "Bit reads return the bits of the canonical integer",
     "For each of the nine fields, the reported number of bits is the bit length of the prime, and reading bit i (below that number) "
     "of an element returns bit i of the canonical integer it stands for: for any representation with the normalising read, and for "
     "normal forms with the non-normalising read.",
     ["inputs"], "all elements in any reachable representation, all bit indices",
     "No existing test reads a bit.", FIELDS, [("nbits, bit, bit_normalized", "each field file")], STATE)
prop("F12", "Bitwise masks, and, or, and branchless select are exact",
     "For each of the nine fields, bitwise and/or of elements denotes the bitwise and/or of their canonical integers (with operands "
     "normalised by the call or beforehand, as its name says), and filling with ones or zeros makes masks that keep or clear an element "
     "entirely. In particular (x and M) or (y and not-M) with such masks denotes exactly x or exactly y, for x and y in any reachable representation.",
     ["inputs"], "all pairs of elements in any reachable representation, both mask values",
     "No existing test touches a bitwise operation or a mask.", FIELDS + ["src/field/prime_field.rs"],
     [("fill, filled, normalized_bitand, normalized_bitor and the normalising variants", "each field file")], STATE)
prop("F13", "All spellings of an operation agree",
     "For each of the nine fields, the in-place, functional, by-value and by-reference spellings of an operation, and the operator on "
     "an 8-, 16- or 32-bit integer and the named small-integer method, give elements that stand for the same integer; functional and "
     "by-reference spellings leave their operands unchanged.",
     ["inputs"], "all operands in any reachable representation, every public spelling of every operation",
     "Tests use a few of the spellings on a few values.", FIELDS, [("operator impls", "each field file")], STATE)
prop("F14", "Hexadecimal formatting shows the canonical integer",
     "For each of the nine fields, formatting an element in any reachable representation in lower or upper case hexadecimal gives the canonical "
     "integer it stands for, most significant digit first, in two digits for every byte of its packed form, and does not change the element.",
     ["inputs"], "all elements in any reachable representation", "No existing test formats an element.",
     FIELDS, [("LowerHex, UpperHex", "each field file")], STATE)
prop("F15", "Random elements are canonical, reproducible and spread over the field",
     "For each of the nine fields and any random number source, a randomly drawn element is already in normal form (below the prime), is a "
     "function of the source's output only, and over many draws from a good source every bit of the packed form varies, no two bits are tied to each other and no value repeats.",
     ["inputs"], "all outputs of the random number source, including degenerate streams",
     "No existing test draws a random element.", FIELDS, [("Rand impl", "each field file")], STATE)
prop("F16", "Any history of field operations tracks exact modular arithmetic",
     "For each of the nine fields, after any sequence of operations on a set of elements (arithmetic, in-place and aliased updates, negation, squaring, "
     "small-integer operations, normalisation, packing, comparison, select), every element stands for the integer modulo the prime that exact arithmetic gives.",
     ["histories"], "all finite operation sequences over a set of registers",
     "Every existing test applies one or two operations to fresh constants; representations that only long chains reach are never checked.",
     FIELDS, [("lazy normalisation discipline across all operations", "each field file")], STATE)
prop("F17", "Field arithmetic never panics and does not depend on build mode",
     "For each of the nine fields, no operation on elements in reachable representations panics, and an overflow-checked build and an optimised unchecked "
     "build compute the same results for the same sequence of operations.",
     ["histories", "configurations"], "all operation sequences, with extreme integers and values, in checked and unchecked builds",
     "Tests run in one build mode on a few values; digit headroom is consumed only by extreme digits in lazy representations.",
     FIELDS, [("digit sizes chosen so that products and sums fit 64 bits", "each field file")], STATE)
prop("F18", "Field arithmetic control flow and indexing are independent of values",
     "For each of the nine fields, the sequence of program branches taken and of array positions accessed by addition, subtraction, negation, multiplication, squaring, small-integer operations, "
     "inversion, Legendre symbol, square root, normalisation, packing, unpacking, bit reads, comparison, masks and bitwise operations does not depend on the values of the elements or the mask bit.",
     ["inputs"], "all pairs of inputs to the same operation", "Results of unit tests say nothing about the path taken.",
     FIELDS, [("bitwise masks in place of branches", "src/field/prime_field.rs, each field file")], STATE,
     ["trace of branches and array indices in a build instrumented by the compiler"])
prop("F19", "Published field constants have the values their names state",
     "For each of the nine fields, the published zero, one, minus one, minus one half (where present) and modulus, and the functions returning them, "
     "have exactly those values and (modulus apart) are in normal form; operations treat them as such.",
     ["inputs"], "all published constants of all fields, combined with any element", "Tests use some of them as inputs and never check them.",
     FIELDS, [("ZERO, ONE, M_ONE, M_HALF, MODULUS; zero, one, m_one, modulus", "each field file")], STATE)
prop("F20", "Operations documented to normalise leave normal forms behind",
     "For each of the nine fields, packing, the normalising bit read, the normalising comparisons (self, or both sides) and the right operand of the normalising "
     "bitwise operations leave the elements they normalise in normal form and standing for the same integer; unpacking and bitwise and (of operands in normal form "
     "by then) give elements in normal form.",
     ["inputs"], "all elements and pairs of elements in any reachable representation",
     "Tests compare after normalising again, so an operand left unnormalised does not show.",
     FIELDS + ["src/normalize.rs", "src/pack.rs", "src/field/prime_field.rs"],
     [("pack, bit, normalize_eq, normalize_self_eq, normalize_bitand, normalize_bitor, unpack", "each field file")], STATE, ["pack_normalized", "bit_normalized"])
prop("F21", "Packing and unpacking touch exactly the packed size",
     "For each of the nine fields and any byte slice of at least the packed size, packing writes the encoding to the first bytes (as many as the packed size "
     "says) and changes no other byte, and unpacking reads only those bytes and changes none, so encodings may lie side by side in one buffer.",
     ["inputs"], "all elements in any reachable representation, all buffers at least as long as the encoding, with any content",
     "Tests use buffers of exactly one encoding, filled with zeros.",
     FIELDS + ["src/pack.rs"], [("pack, pack_normalized, unpack, unpacked, nbytes", "each field file")], STATE, ["Pack"])
prop("F22", "Debug text shows the stored words; formatting into a failing sink fails",
     "For each of the nine fields, debug formatting prints the type's name and the stored words, lowest first, as hexadecimal two's complement numbers, and those words stand for the element's integer; "
     "debug, lower and upper hexadecimal formatting into a sink that fails part of the way report the failure after a prefix of the full text, without panicking, and formatting never alters the element.",
     ["inputs", "fault_sequences"], "all elements in any reachable representation, sinks failing after any number of bytes",
     "No test formats an element other than in failure messages, or fails a sink.",
     FIELDS, [("Debug, LowerHex, UpperHex", "each field file")], STATE, ["core::fmt"])
prop("F23", "Field operations are functions of their operands, on any thread",
     "For each of the nine fields, an operation on given operands stands for the same result whenever it is repeated: after any other operations, in any order, and while other threads compute. "
     "(Random elements are functions of what the source yields.)",
     ["histories", "schedules"], "all sequences of operations, repeated in any order and on several threads at once",
     "Tests run each operation once, in one order, and share no operands between threads.",
     FIELDS, [("all operations; no state outside the operands", "each field file")], STATE)

H = "cfg verif_hooks: read access to a point's stored coordinates (there is no public accessor)"
CST = [("x, y, z, t", "extended projective coordinates: the affine point is (X/Z, Y/Z) and T*Z = X*Y", ED)]
NOTEST = "No existing test touches curve code at all."
CF = [ED, "src/curve/point.rs", "src/curve/e_222.rs", "src/curve/curve1174.rs", "src/curve/e_382.rs", "src/curve/curve41417.rs", "src/curve/e_521.rs"]
prop("C01", "Point addition is the complete Edwards addition law",
     "On each of the five Edwards curves, adding any two curve points (equal, opposite, neutral, of small order, or arbitrary, with any projective "
     "scaling) gives the point that the affine Edwards addition law defines, as valid extended coordinates.",
     ["inputs"], "all pairs of points of each curve in any projective scaling and coordinate representation", NOTEST,
     CF, [("add_assign", ED)], CST, None, H)
prop("C02", "Point doubling equals adding a point to itself",
     "On each of the five Edwards curves, doubling any curve point in any projective scaling gives the sum of the point with itself, as valid extended coordinates.",
     ["inputs"], "all points of each curve in any projective scaling", NOTEST, CF, [("double / doubled", ED)], CST, None, H)
prop("C03", "Point tripling equals adding a point three times",
     "On each of the five Edwards curves, tripling any curve point in any projective scaling gives P + P + P, as valid extended coordinates.",
     ["inputs"], "all points of each curve in any projective scaling", NOTEST, CF, [("triple / tripled", ED)], CST, None, H)
prop("C04", "The neutral point and point construction are correct",
     "On each of the five Edwards curves, the zero point is the neutral element of addition, and initialising a point from the affine coordinates of any "
     "curve point gives exactly that point as valid extended coordinates, whatever the target held before and whatever representations the coordinates have.",
     ["inputs"], "all affine curve points, coordinates in any reachable representation, any previous content", NOTEST,
     CF, [("zero, init", ED)], CST, None, H)
prop("C05", "Scalar multiplication computes the exact multiple",
     "On each of the five Edwards curves, for every curve point P and every scalar k of the curve's field, taken as the canonical integer below the prime, scalar "
     "multiplication gives k times P as defined by repeated addition, for scalars in any reachable representation; the variant for normalised scalars agrees with it.",
     ["inputs"], "all points, all scalars 0 <= k < p in any reachable representation", NOTEST,
     CF, [("scalar_mult, scalar_mult_normalized: Montgomery ladder with masks", ED)], CST, None, H)
prop("C06", "Scalar multiplication respects the group structure",
     "On each of the five Edwards curves, aP + bP = (a+b)P, a(bP) = b(aP), 2P and 3P agree with doubling and tripling, the published subgroup order times the base "
     "point is the neutral point, and multiples of the base point by scalars congruent modulo that order are equal.",
     ["inputs"], "all scalars, multiples of the base point and other points", NOTEST,
     CF + FIELDS, [("scalar_mult with add_assign, double, triple; published orders", ED)], CST, None, H)
prop("C07", "Published curve parameters are mutually consistent",
     "For every curve whose constants the library publishes (five Edwards curves and five Montgomery curves), the published base point lies on the documented curve, the published "
     "order is prime, lies in the range that makes it the order of the base point's subgroup, and the order times the base point is neutral; Edwards d values are non-squares, so addition is complete. All published curve constants are in normal form, so that reading their bits and scalar multiplication by them need no normalisation.",
     ["configurations", "inputs"], "all published curves, and arbitrary points on them", "No test reads a curve constant.",
     FIELDS, [("*_BASE_X, *_BASE_Y, *_ORDER, *_D constants", "each field file")])
prop("C08", "Point control flow and indexing are independent of scalar and point",
     "On each of the five Edwards curves, the sequence of program branches taken and of array positions accessed by scalar multiplication, and by addition, doubling and tripling, is the same for every scalar and every point.",
     ["inputs"], "all pairs of scalars and of points", NOTEST,
     CF, [("branchless ladder", ED)], CST, ["trace of branches and array indices in a build instrumented by the compiler"], H)
prop("C09", "The Edwards arithmetic is right over every field and curve",
     "For a user-supplied curve with non-square d over any prime field implementing the field interface, addition, doubling, tripling, the neutral point, construction and scalar multiplication by every scalar "
     "below the prime agree with the affine group law on all points.",
     ["inputs", "configurations"], "all primes and non-square d of small size, all points, all pairs of points, all scalars", NOTEST,
     [ED, "src/curve/point.rs", "src/field/prime_field.rs"], [("generic EdwardsExtended over EdwardsCurve", ED)], CST, None, H)
prop("C10", "Any history of point operations stays on the curve and tracks the group",
     "On each of the five Edwards curves, after any sequence of construction, addition, doubling, tripling and scalar multiplication (also in place and aliased), every point satisfies the curve equation and the extended-coordinate relation "
     "and equals the group element that the reference computes for that history.",
     ["histories"], "all finite sequences of point operations over a set of registers", NOTEST, CF,
     [("all of EdwardsExtended", ED)], CST, None, H)
prop("C11", "All spellings of a point operation agree and leave operands intact",
     "On each of the five Edwards curves, the in-place, functional, by-value and by-reference forms of addition, doubling and tripling give the same point, right operands and the receivers of functional forms are unchanged, and scalar "
     "multiplication leaves the integer its scalar stands for unchanged.",
     ["inputs"], "all points and scalars in any representation", NOTEST, CF, [("Add, AddAssign, doubled, tripled, scalar_mult", ED)], CST, None, H)

prop("C12", "Point arithmetic never panics and does not depend on build mode",
     "On each of the five Edwards curves, no construction, addition, doubling, tripling or scalar multiplication on valid points and scalars in reachable representations panics, "
     "and an overflow-checked build and an optimised unchecked build compute the same coordinates for the same sequence of operations.",
     ["histories", "configurations"], "all histories of point operations, in builds with and without overflow checks and debug assertions",
     NOTEST + " Tests run in one build mode.", CF + FIELDS, [("all of EdwardsExtended on lazily reduced field elements", ED)], CST, ["two builds of the library"], H)
prop("C13", "Point operations are functions of their operands, on any thread",
     "On each of the five Edwards curves, construction, addition, doubling, tripling and scalar multiplication of given points and scalars give the same point whenever they are repeated: after any other operations, in any order, "
     "and while other threads compute.",
     ["histories", "schedules"], "all sequences of point operations, repeated in any order and on several threads at once",
     NOTEST, CF + FIELDS, [("all of EdwardsExtended; no state outside the operands", ED)], CST, None, H)

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in OUT:
        f.write(json.dumps(p) + "\n")
print(len(OUT), "properties")
for p in OUT:
    if len(p["title"]) > 80:
        print("title too long", p["id"], len(p["title"]))
