#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (one place for both)"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
W = lambda *x: [{"name": n, "where": w} for n, w in x]
P = []
def prop(id, title, statement, over, why, files, mech, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, level=level, note=note, na=na))

TESTS = "The tests sample a few fixed numbers and some random ones; "
prop("C01", "UBigInt addition and subtraction are exact",
 "For all unsigned big integers a and b, a + b (big or u32 operand, by value or in place) is the exact sum; a - b is the exact difference whenever a >= b and panics when a < b. abs_diff and abs_diff_u32 return |a - b| for every a and b.",
 "all values of both operands, of any length", TESTS + "a carry or borrow that must cross a particular limb pattern is not among them.",
 ["src/ubigint/arith/add.rs", "src/ubigint/arith/sub.rs", "src/ubigint/arith.rs"],
 W(("carry propagation loops", "UBigInt::add, add_mut, add_u32_mut"), ("borrow propagation loops", "UBigInt::sub, sub_mut, sub_u32_mut"), ("abs_diff", "UBigInt::abs_diff")))
prop("C02", "UBigInt multiplication, powers and limb shifts are exact",
 "For all unsigned big integers, products (big, u32 and power-of-two multiplier), powers with a u32 exponent, and shifts by whole 32-bit words equal the exact mathematical value. Shifting right by words is floor division by 2^(32k); slicing the low words and rem_pow2(m), for m a power of two, give the remainder.",
 "all operands of any length and every u32 exponent or shift amount that fits in memory", TESTS + "the u64 accumulator overflows only for operands with many extreme limbs.",
 ["src/ubigint/arith/mul.rs", "src/ubigint/arith/pow.rs", "src/ubigint/funcs/shift.rs"],
 W(("schoolbook product with u64 accumulators", "UBigInt::mul"), ("square and multiply", "UBigInt::pow_u32"), ("word shifts", "UBigInt::shift_left_mut, shift_right_mut, slice_right_mut")))
prop("C03", "UBigInt division and remainder satisfy the Euclidean law",
 "For every a and every b > 0 (big or u32 divisor), a / b is the floor of the quotient and a % b is a - b * floor(a / b), so that 0 <= a % b < b. Division terminates for all inputs, and division or remainder by zero panics.",
 "all dividends and divisors of any length", TESTS + "quotient estimation goes wrong only for special leading-limb patterns.",
 ["src/ubigint/arith/div.rs", "src/ubigint/arith/rem.rs"],
 W(("approximate quotient and correction", "UBigInt::div"), ("in-place u32 division", "UBigInt::div_u32_mut, rem_u32_mut")))
prop("C04", "Every big integer has one canonical representation",
 "Every value that the crate's operations return has no superfluous leading zero word, and zero is represented by a single zero word without a sign; from_raw of a canonical word list and into_raw are inverse to each other. Consequently two big integers are equal (==, eq) and hash alike exactly if they denote the same number.",
 "all values reachable through the public constructors and operations", "Tests compare results with == and so only see a non-canonical value where it changes the answer of that one comparison.",
 ["src/ubigint.rs", "src/bigint.rs", "src/ubigint/arith.rs", "src/ubigint/convert/from.rs", "src/bigint/convert.rs"],
 W(("removal of leading zeros", "remove_suffix_0"), ("negative zero is never built", "BigInt::from_raw, BigInt::from_ubi")))
prop("C05", "Comparisons agree with the numeric order",
 "For UBigInt, BigInt and Ratio, comp, lt, leq, gt, geq, eq, neq, their u32/i32 variants, Ord and PartialOrd all agree with the order of the denoted numbers. Ratio::lt_one and gt_one compare the value itself with one.",
 "all pairs of values, including i32::MIN and values equal in all but one word", TESTS + "agreement of all the separate comparison routines on all pairs is not tested.",
 ["src/ubigint/comp.rs", "src/bigint/comp.rs", "src/ratio/comp.rs"],
 W(("word-wise comparison from the top", "UBigInt::comp, lt, gt"), ("sign cases", "BigInt::comp, lt, gt"), ("cross multiplication", "Ratio::comp, lt, gt")))
prop("C06", "Conversions between primitive and big integers are exact or errors",
 "Converting any primitive integer to UBigInt or BigInt denotes the same number (negative to UBigInt: an error). Converting a big integer to a primitive integer type returns exactly its value when it fits the type and an error otherwise; nothing is truncated and nothing panics.",
 "all primitive values including the extreme ones, and all big integers", "Tests sample a few values per type; the extreme values of several types were wrong (see the fix: commits).",
 ["src/ubigint/convert.rs", "src/ubigint/convert/from.rs", "src/ubigint/convert/into.rs", "src/bigint/convert.rs", "src/bigint/convert/from.rs", "src/bigint/convert/into.rs"],
 W(("word packing", "UBigInt::from_u32, from_u64, from_u128, to_u32, to_u64, to_u128"), ("sign handling", "BigInt::from_i32, from_i64, from_i128, to_i32, to_i64, to_i128")))
prop("C07", "Integer strings round-trip in every base",
 "For UBigInt and BigInt, to_string_dec/hex/oct/bin print the exact value (hex, oct, bin with prefix 0x, 0o, 0b, minus sign in front, no leading zeros), and from_string reads back exactly the number that a decimal, 0x, 0o or 0b literal denotes, underscores ignored. Malformed input gives an error, never a panic or a wrong number.",
 "all integers and all strings", TESTS + "the chunked conversion has boundary cases at each chunk length and at zero digits inside a number.",
 ["src/ubigint/convert.rs", "src/bigint/convert.rs"],
 W(("literal state machine", "UBigInt::from_string"), ("repeated division by a power of the base", "UBigInt::to_string_dec, to_string_hex, to_string_oct, to_string_bin")))
prop("C08", "Integer square roots are exact floors",
 "For every unsigned big integer n, sqrt returns the largest s with s*s <= n, and it terminates; for a BigInt it is the root of the magnitude with the sign of n.",
 "all n of any length", "Newton iteration and its starting value are only tested near some squares.",
 ["src/ubigint/funcs.rs", "src/bigint/funcs.rs"],
 W(("Newton iteration from a power-of-two start", "UBigInt::sqrt"), ("u64 root", "sqrt_u64")))
prop("C09", "gcd, primality and factorisation are correct",
 "gcd_ubi, gcd_bi, gcd_i32 and gcd_i64 return the greatest common divisor (non-negative, gcd(a, 0) = |a|). is_prime answers true exactly for primes, and prime_factorial returns primes in ascending order whose product is the input (an input below 2 is returned as the only element).",
 "all integers", TESTS + "trial division limits are hit only for squares of primes and numbers near word boundaries.",
 ["src/utils.rs", "src/ubigint/funcs.rs", "src/bigint/funcs.rs", "src/lib.rs"],
 W(("Euclid", "gcd_ubi, gcd_bi, gcd_i32, gcd_i64"), ("trial division up to the square root", "UBigInt::is_prime, prime_factorial")))
prop("C10", "factorial, fibonacci, log2 and exp2 return exact values",
 "factorial(n) is n!, fibonacci(n) is the n-th Fibonacci number for every u32 n, exp2(n) is 2^n, and log2(n) is the floor of the binary logarithm of n (0 for n = 0, and of |n| for a BigInt).",
 "all arguments", TESTS + "the precomputed tables and the switch between them and the loops are sampled only.",
 ["src/ubigint/funcs.rs", "src/ubigint/funcs/log.rs", "src/ubigint/funcs/exp.rs", "src/bigint/funcs.rs"],
 W(("precomputed tables", "UBigInt::factorial, UBigInt::fibonacci"), ("bit length", "UBigInt::log2")))
prop("C11", "BigInt arithmetic is exact signed integer arithmetic",
 "For all signed big integers and i32 operands, +, -, *, division truncated toward zero and its remainder (with the sign of the dividend), negation, absolute value, powers and power-of-two products equal the exact mathematical value, by value and in place; division by zero panics. Word shifts, low-word slices and rem_pow2 act on the magnitude and keep the sign.",
 "all operands of both signs, including i32::MIN", TESTS + "sign combinations with zero results and i32::MIN are not covered.",
 ["src/bigint/arith/add.rs", "src/bigint/arith/sub.rs", "src/bigint/arith/mul.rs", "src/bigint/arith/div.rs", "src/bigint/arith/rem.rs", "src/bigint/arith/pow.rs", "src/bigint/funcs.rs"],
 W(("sign case analysis over magnitude operations", "BigInt::add, sub, mul, div, rem, pow_u32")))
prop("C12", "Ratio arithmetic is exact and always in lowest terms",
 "Every Ratio returned by the crate has a positive denominator coprime to its numerator (zero is 0/1), so equal numbers have equal representations. +, -, *, / with Ratio, BigInt and i32 operands, negation, absolute value, reciprocal and integer powers return the exact rational value, by value and in place; a zero divisor panics.",
 "all rationals and operands", TESTS + "the shortcuts that skip the gcd are valid only under conditions a sample rarely violates.",
 ["src/ratio.rs", "src/ratio/arith/add.rs", "src/ratio/arith/sub.rs", "src/ratio/arith/mul.rs", "src/ratio/arith/div.rs", "src/ratio/arith/pow.rs", "src/ratio/convert.rs"],
 W(("normalisation by gcd", "Ratio::fit"), ("cross products", "Ratio::add, sub, mul, div")))
prop("C13", "Ratio truncation, floor, rounding and fraction are consistent",
 "For every rational x: truncate and truncate_bi round toward zero, floor and floor_bi toward minus infinity, round and round_bi to a nearest integer (halves away from zero), frac is x - truncate(x), and truncate_and_frac returns both. The results are exact for every sign and size.",
 "all rationals", TESTS + "negative values and exact halves are the cases that break.",
 ["src/ratio/funcs.rs"], W(("rounding functions", "Ratio::truncate_bi, floor_bi, round_bi, frac, truncate_and_frac")))
prop("C14", "Ratio literals denote the number",
 "Ratio::from_string reads every decimal literal with optional sign, fraction and exponent (and integer literals of base 2, 8, 16) as exactly the number it denotes, in lowest terms, and rejects malformed strings with an error. to_ratio_string prints the exact numerator and denominator in lowest terms (the numerator alone for an integer).",
 "all strings and all rationals", TESTS + "exponents, underscores, signs and zeros combine.",
 ["src/ratio/convert.rs"], W(("literal parser", "Ratio::from_string, get_non_decimal_char"), ("printer", "Ratio::to_ratio_string")))
prop("C15", "IEEE-754 conversions are exact in and nearest out",
 "Converting a finite f32 or f64 to Ratio gives exactly the number the float denotes; infinities and NaN give errors. Converting a Ratio to f32 or f64 gives a float nearest to it, including subnormals, and an error when it is out of the finite range.",
 "all 2^32 and 2^64 bit patterns, all rationals", "Tests round-trip a few hundred floats; subnormals and carries into the exponent were wrong (see the fix: commits).",
 ["src/ratio/convert/ieee754.rs"], W(("field extraction", "inspect_ieee754_f32, inspect_ieee754_f64"), ("rounding", "Ratio::to_ieee754_f32, to_ieee754_f64")))
prop("C16", "Matrix algebra is exact",
 "For matrices over rationals, add, mul, mul_k, transpose, determinant (every size), adjugate and inverse equal their mathematical definitions exactly; in particular m * inverse(m) is the identity whenever the determinant is not zero. Mismatched dimensions, non-square or singular input is reported as the documented error.",
 "all matrices of all sizes with arbitrary rational entries", TESTS + "the hand-expanded 2x2, 3x3 and 4x4 formulas need every entry to be distinct to expose a slip.",
 ["src/matrix.rs", "src/matrix/det.rs", "src/matrix/inv.rs", "src/matrix/utils.rs"], W(("expanded determinants and Laplace expansion", "Matrix::determinant"), ("adjugate", "Matrix::inverse, adjugate")))
prop("C17", "Polynomial evaluation, derivative and interpolation are exact",
 "calc returns the exact value of the polynomial at every rational x, differentiate its exact derivative, mul_k the exact multiple, and newton_method x - f(x)/f'(x); a polynomial these functions return never has a leading zero coefficient except the zero polynomial. from_points returns a polynomial of degree below the number of points that passes through all of them whenever their abscissae are distinct, and Err(ZeroDeterminant) otherwise; linear_2_points, quadratic_3_points and cubic_2_points return the polynomial through the given points (cubic: with the given slopes), and for coinciding abscissae the documented fallback.",
 "all coefficient lists and all point sets", TESTS + "interpolation formulas agree on special points by accident.",
 ["src/poly.rs", "src/poly/from_points.rs"], W(("Horner evaluation", "Polynomial::calc"), ("interpolation by inverse of the Vandermonde matrix", "from_points")))
prop("C18", "F192 conversions and exact operations are exact",
 "An F192 denotes (-1)^s * m * 2^e with 2^127 <= m < 2^128, or zero. Negation, absolute value, comparison, equality, shl, shr, truncate, is_integer, step_epsilon, from_pow2 and ilog2 agree exactly with the denoted numbers. Every integer type of up to 128 bits converts to F192 without loss, and F192 converts to them by truncation, with an error exactly if the result does not fit (or is negative, for unsigned types). Finite f32 and f64 and F192 -> Ratio convert exactly; Ratio -> F192 gives the nearest F192.",
 "all F192 values in range (binary exponents within +-2^32 for the conversions with Ratio), all integers and floats", "Tests sample magnitudes near one; the boundaries (i128::MIN, values below 1, a rounding carry through all digits) are isolated points.",
 ["src/fp192.rs", "src/fp192/comp.rs", "src/fp192/convert.rs", "src/fp192/funcs.rs", "src/fp192/funcs/ln.rs", "src/fp192/funcs/pow.rs"], W(("packed sign and digits", "F192"), ("rounding carry", "From<&Ratio> for F192"), ("truncation to integers", "F192::to_u128, to_i128")))
prop("C19", "F192 arithmetic is accurate to the last digits",
 "For F192 values with binary exponents within +-2^32, add, sub, mul_i32 and div_i32 return a value with a relative error of at most 2^-127, and the exact result whenever that is an F192; mul has a relative error of at most 2^-125 and div below 2^-120. floor, ceil, round (halves away from zero) and frac are exact.",
 "all F192 values in that range and all i32", "Tests compare a few results with f64, which has 53 digits; a lost carry in the last of 128 digits is invisible to them.",
 ["src/fp192/arith/add.rs", "src/fp192/arith/sub.rs", "src/fp192/arith/mul.rs", "src/fp192/arith/div.rs", "src/fp192/funcs.rs"], W(("u128 mantissa arithmetic", "F192::add, mul, mul_i32, div_i32"), ("subtraction through Ratio", "F192::sub"), ("bisection", "F192::div")))
prop("C20", "Transcendental iterations converge to the function",
 "sin_iter, cos_iter, exp_iter, ln_iter, pi_iter, e_iter, sqrt_iter and their relatives return a rational within an error that shrinks with the number of iterations.",
 "all arguments and iteration counts", "Tests compare a handful of values with f64 constants.",
 ["src/ratio/funcs/trigo.rs", "src/ratio/funcs/exp.rs", "src/ratio/funcs/ln.rs", "src/ratio/pi.rs", "src/ratio/e.rs"], W(("series", "exp_iter, ln_iter, sin_iter, cos_iter")),
 na="The error bounds are not stated by the code, and proving them needs real analysis (Taylor remainders of transcendental functions) that the available deductive verifier has no theory for.")
prop("C21", "Approximate decimal strings agree with the number",
 "to_scientific_notation (UBigInt, BigInt, Ratio) and Ratio::to_approx_string (and Display of Ratio) print a decimal literal with the sign of the number, within the requested length, whose value is the number truncated to the printed digits; no value makes them panic.",
 "all numbers whose decimal exponent is within +-9000, all requested lengths", TESTS + "the switch between plain and exponent form, and the digits lost on the way, depend on the magnitude and the length together.",
 ["src/ratio/convert.rs", "src/ubigint/convert.rs", "src/bigint/convert.rs"], W(("digit extraction", "Ratio::to_approx_string, to_scientific_notation"), ("integers", "UBigInt::to_scientific_notation")))

CLAIMED = os.environ.get("CLAIM", "C01,C02,C03,C04,C05,C06,C08,C09,C10,C11").split(",")
exec(open(V + "/levels.py").read())

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": ["inputs"], "text": p["over"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in LEVEL:
            lv, note = LEVEL[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
              "technique": "contract-based deductive verification (Verus/Z3) of functions extracted from /repo on every run", "level": lv, "level_note": note})
        else: na.append({"property": i, "reason": p["na"] or "contracts not written yet; only a bounded dynamic check exists, which this family does not count"})
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": "No hooks: the harness uses the public API only. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
main()
