TB = " Trusted: the vx extraction rules N1..N27, Verus and Z3, std specifications and the two vector-length axioms listed in the evidence."
LEVEL = {
 "C01": ("proof", "Every function is proved for all inputs." + TB),
 "C02": ("proof", "Every function is proved for all inputs." + TB),
 "C03": ("proof", "Every function is proved for all inputs, including termination." + TB),
 "C04": ("proof", "Canonical form is a postcondition of every constructor and operation under contract; derived Eq and Hash are compared by the bounded harness." + TB),
 "C05": ("proof", "All comparison functions of UBigInt, BigInt and Ratio proved for all inputs, with their Ord and PartialOrd impls; the derived PartialEq is compared by the bounded harness." + TB),
 "C06": ("proof", "from_*/to_* and the From/TryFrom impls over them proved for all inputs (N25)." + TB),
 "C07": ("proof", "from_string and the four printers of UBigInt and BigInt are proved for all strings and numbers (decimal: fewer than 2^32 words), with lemmas that printing and reading are inverse; format! with zero padding, trim, concat and char digit tests are trusted std specifications; the Display/LowerHex/Octal/Binary/FromStr/TryFrom impls are proved over them, writing to the Formatter being a trusted specification." + TB),
 "C08": ("proof", "Proved for all inputs, including termination." + TB),
 "C09": ("proof", "gcd, primality and factorisation proved for all inputs (numbers of fewer than 2^32 words)." + TB),
 "C10": ("proof", "Every function is proved for all inputs, except log2_accurate (bounded)." + TB),
 "C12": ("proof", "Every arithmetic function is proved for all inputs over the mathematical rationals (Verus real), shrink's canonical result included; the generic (D, N) conversion and Sum/Product are bounded." + TB),
 "C13": ("proof", "Every function is proved for all inputs." + TB),
 "C11": ("proof", "Every function is proved for all inputs." + TB),
 "C14": ("proof", "from_string and to_ratio_string are proved for all strings and numbers (printing: fewer than 2^32 words); the str search, slicing and char functions of std are trusted specifications, as are the FromStr/TryFrom impls; Ratio's Display is bounded." + TB),
 "C15": ("proof", "All four conversions and both inspect functions are proved for all inputs (to_*: denominators of at most 2^25 words); no finite float is nearer than the result, and the error is given exactly above the rounding limit. to_bits/from_bits are trusted." + TB),
 "C16": ("proof", "Every operation is proved for all sizes and entries, with the Laplace expansion and adjugate theorem proved for every n; only the printing function is outside." + TB),
 "C17": ("proof", "Evaluation, derivative, scaling, Newton step and all interpolation functions proved for all inputs (polynomials of at most 2^31 - 1 coefficients for the derivative); the string and float-vector conversions are outside." + TB),
 "C18": ("proof", "Every function is proved for all inputs in range, with the From/TryFrom impls; u128::leading_zeros and to_bits are trusted std specifications. F192 to f32/f64, strings and code13 are outside." + TB),
 "C19": ("proof", "add, sub, mul, mul_i32, div_i32, floor, ceil, round and frac are proved for all F192 with binary exponents within +-2^32; div (bisection on the rounded product, started from a table-free logarithm estimate) has no contract and is bounded: run on generated pairs against an exact rational oracle, not counted as proved." + TB),
 "C21": ("exploration", "UBigInt and BigInt::to_scientific_notation are proved for all numbers of fewer than 2^32 words. Ratio::to_approx_string and Ratio::to_scientific_notation are bounded: their digits depend on an inexact binary logarithm for which no contract is within reach; they are run on generated numbers (up to about 24 words, decimal exponents up to about +-200) and compared with an independent bignum oracle. Not counted as proved."),
}
