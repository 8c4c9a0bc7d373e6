"""The properties, and what each check runs.  gen.py derives properties.jsonl and MANIFEST.json from here."""

M = "astro-float-num/src/"

def P(title, statement, over, text, why, files, mech, features, runs, bounds, level_note="", assumptions=()):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=[M + f for f in files],
                mech=[dict(name=n, where=M + w) for n, w in mech], features=features, runs=runs, bounds=bounds,
                level_note=level_note, assumptions=list(assumptions))

def R(width, entries, **k):
    return dict(width=width, entries=entries.split(), **k)

def T(width, entries, **k):
    return dict(width=width, entries=entries.split(), tier="thorough", **dict(dict(deadline=1500, timeout=60000), **k))

I = ["inputs"]
LOWW = "The 8-bit-word build runs the same source with a narrower machine word, so multi-word numbers get small enough for the solver; the 64-bit build is the shipped one."

PROPS = {
 "C01": P("Addition and subtraction are correctly rounded",
  "The sum and the difference of two finite numbers, taken to a precision of whole words and a rounding mode, equal the exact result rounded once in that mode, whenever the exact result is inside the normal exponent range. The inexact flag is set exactly if rounding changed the value or an operand carried the flag.",
  I, "all mantissas of the stated lengths, both signs, all rounding modes, exponent differences within the stated lists, any base exponent away from the limits",
  "The tests compare a few hundred random operands at a few precisions; a wrong carry, sticky bit or tie only shows for operands that agree in specific bits.",
  ["num.rs", "mantissa/mantissa.rs"], [("alignment and rounding of sums", "num.rs add_sub"), ("word-wise addition", "mantissa/mantissa.rs abs_add/abs_sub"), ("rounding", "mantissa/mantissa.rs round_mantissa")],
  "arith", [R(8, "h_add_11 h_sub_11 h_add_11s h_add_1p h_add_21s h_add_22q h_sub_32q", deadline=90), R(8, "h_add_21 h_add_12", deadline=80), R(64, "h_add_11s", deadline=60),
   T(8, "h_add_22 h_add_31 h_add_13 h_add_33"), T(64, "h_add_21s")],
  "1 to 3 words per operand (8-bit words), 1 word (64-bit words); exponent differences -20..20 and around word multiples; result precisions of 1 to 4 words. Longer mantissas and larger differences are outside."),
 "C02": P("Multiplication is correctly rounded",
  "The product of two finite nonzero numbers, taken to a precision of whole words and a rounding mode, equals the exact product rounded once in that mode, whenever it is inside the normal exponent range. The inexact flag is set exactly if rounding changed the value or an operand carried the flag.",
  I, "all mantissas of the stated lengths, both signs, all rounding modes, any exponents away from the limits",
  "The tests multiply random numbers; a lost carry between partial products or a wrong tie needs particular words.",
  ["num.rs", "mantissa/mul.rs", "mantissa/mantissa.rs"], [("product and normalisation", "num.rs mul_general_case"), ("schoolbook product", "mantissa/mul.rs mul_basic"), ("rounding", "mantissa/mantissa.rs round_mantissa")],
  "arith", [R(8, "h_mul_11 h_mul_21 h_mul_12", deadline=60), R(8, "h_mul_22", deadline=100), R(64, "h_mul_11 h_mul_21", deadline=60, timeout=20000),
   T(8, "h_mul_33")],
  "1 to 3 words per operand (8-bit words), up to 2 by 1 words (64-bit words); result precisions up to 6 words."),
 "C03": P("Division and reciprocal are correctly rounded",
  "The quotient of two finite nonzero numbers and the reciprocal of one, taken to a precision of whole words and a rounding mode, equal the exact value rounded once in that mode, whenever it is inside the normal exponent range. The inexact flag is set exactly if rounding changed the value or an operand carried the flag.",
  I, "all one-word mantissas, and multi-word ones that vary in their low bits around fixed patterns, all rounding modes",
  "The rare corrections of long division and the tie cases of the quotient need operands random testing hits with probability around 2^-60.",
  ["num.rs", "mantissa/div.rs"], [("quotient and sticky bit", "num.rs div"), ("long division with corrections", "mantissa/div.rs div_basic"), ("reciprocal", "num.rs reciprocal")],
  "arith", [R(8, "h_div_11 h_div_11p h_div_11q h_div_22q h_div_31q h_div_32q h_recip_1q h_recip_2q", deadline=110, btimeout=20000), R(8, "h_div_12p", deadline=60),
   R(8, "h_div_11h h_div_12h h_div_22h h_div_33h h_div_23h h_div_44n", deadline=60, exact=1000), R(64, "h_div_11h h_div_22n h_div_33n h_div_44n", deadline=90, timeout=60000, exact=1000),
   T(8, "h_div_21p h_div_22p h_div_32p h_div_23p h_div_11l h_div_22l h_div_32l h_recip_1 h_recip_2")],
  "8-bit words: one-word operands completely, longer ones (up to 3 by 2 words) with one operand from ten fixed patterns or varying in its 3 to 5 lowest bits; and, for both word sizes and up to 4 words, all dividends whose quotient by a fixed pattern is as near to a representable number or a midpoint as stated in the harness."),
 "C04": P("Square root is correctly rounded",
  "The square root of a nonnegative number, taken to a precision of whole words and a rounding mode, equals the exact root rounded once in that mode; the root of zero is zero and the root of a negative number is NaN. The inexact flag is set exactly if rounding changed the value or the operand carried the flag.",
  I, "all one-word operands including subnormal ones, and longer ones that vary in low bits around fixed patterns; even and odd exponents",
  "Perfect squares and their neighbours decide the direction of rounding and are rarely hit by random operands.",
  ["num.rs", "mantissa/sqrt.rs", "mantissa/util.rs"], [("root with remainder", "mantissa/sqrt.rs sqrt_rem"), ("exponent parity and sticky bit", "num.rs sqrt")],
  "num2", [R(8, "h_sqrt_2q h_sqrt_3q h_sqrt_5q h_root_dom_1 h_root_dom_2 h_sqrt_1q h_sqrt_1s", deadline=100),
   R(8, "h_sqrt_1h h_sqrt_1i h_sqrt_2h h_sqrt_2i h_sqrt_3h h_sqrt_4h h_sqrt_4n h_sqrt_8n", deadline=60, exact=1000), R(64, "h_sqrt_1n h_sqrt_2n", deadline=60, timeout=60000, exact=1000),
   T(64, "h_sqrt_4n", exact=1000), T(8, "h_sqrt_1 h_sqrt_2 h_sqrt_2l h_sqrt_3l h_sqrt_6l h_sqrt_9l")],
  "8-bit words; one word completely for two rounding modes, 2 to 5 words (the recursive algorithm starts at 5 words of radicand) with 2 or 3 symbolic low bits around ten patterns; and all operands of 1 to 4 words (8-bit words, up to 8 for some distances) and 1 or 2 words (64-bit words) whose root misses a representable number or midpoint by one of the stated distances."),
 "C05": P("Cube root is correctly rounded",
  "The cube root of a number of either sign, taken to a precision of whole words and a rounding mode, equals the exact root rounded once in that mode; the root of zero is zero. The inexact flag is set exactly if rounding changed the value or the operand carried the flag.",
  I, "one-word operands and longer ones that vary in low bits around fixed patterns, exponents of every residue modulo 3",
  "Perfect cubes and their neighbours decide the direction of rounding and are rarely hit by random operands.",
  ["num.rs", "mantissa/cbrt.rs", "mantissa/util.rs"], [("root with remainder", "mantissa/cbrt.rs cbrt_rem"), ("exponent residue and sticky bit", "num.rs cbrt")],
  "num2", [R(8, "h_cbrt_1l h_cbrt_2q h_cbrt_3q h_root_dom_1 h_root_dom_2", deadline=60), R(8, "h_cbrt_1q", deadline=60), R(8, "h_cbrt_1h h_cbrt_2h h_cbrt_2n h_cbrt_4n", deadline=60, exact=1000), R(64, "h_cbrt_2n h_cbrt_4n", deadline=60, timeout=60000, exact=1000),
   T(8, "h_cbrt_3h", exact=1000), T(8, "h_cbrt_1 h_cbrt_1s h_cbrt_1b h_cbrt_2l h_cbrt_3l")],
  "8-bit words; 1 to 3 words with 2 or 3 symbolic low bits around fixed patterns, and one-word operands completely as far as the time goes; and all operands of 1 to 4 words (8-bit words) and 2 or 4 words (64-bit words) whose root misses a representable number or midpoint by one of the stated distances."),
 "C06": P("The remainder is exact",
  "The remainder x rem y of finite x and nonzero finite y is exactly x - y*trunc(x/y): it has the sign of x and is smaller in magnitude than y. This includes subnormal operands and results.",
  I, "one and two word operands, exponent differences within the stated lists, and the lowest exponents of the range",
  "Tests use moderate random operands; the modular exponentiation, the equal-exponent path and the results below the normal range need specific shapes.",
  ["num.rs", "mantissa/mantissa.rs", "mantissa/div.rs"], [("remainder by modular powers of two", "num.rs rem"), ("modular product", "mantissa/mantissa.rs mul_mod/pow_mod")],
  "num2", [R(8, "h_rem_12 h_rem_11p", deadline=60), R(8, "h_rem_lo_1 h_rem_21", deadline=80), T(8, "h_rem_11 h_rem_22 h_rem_lo_2")],
  "8-bit words; 1 or 2 words, exponent differences up to 40, second operand from fixed patterns except in the thorough runs."),
 "C07": P("Full-precision addition, subtraction and multiplication are exact",
  "The operations that take no precision return the exact sum, difference or product of finite operands, whatever their lengths, zero included, as long as it is inside the exponent range. The inexact flag is set exactly if an operand carried it.",
  I, "all mantissas of the stated lengths, both signs, exponent differences within the stated lists",
  "Tests compare with the rounded operations on random operands; zero operands and cancelling or far apart exponents are not covered.",
  ["num.rs", "mantissa/mantissa.rs", "mantissa/mul.rs"], [("exact sum", "num.rs add_full_prec/add_sub"), ("exact product and trimming", "num.rs mul_full_prec")],
  "arith", [R(8, "h_addfull_11 h_addfull_21 h_full_zero_1 h_mulfull_11 h_mulfull_21 h_mulfull_12 h_mulfull_22 h_subfull_33 h_subfull_42", deadline=100), R(64, "h_addfull_11s h_full_zero_2 h_mulfull_11", deadline=60), T(8, "h_addfull_22 h_mulfull_32")],
  "1 or 2 words and selected pairs up to 4 (8-bit words), 1 word (64-bit words); exponent differences -20..20 and around word multiples."),
 "C08": P("Comparison is the numerical order",
  "Comparing two finite numbers gives the order of their values for every sign, length and exponent, zero and subnormal numbers included, and comparing magnitudes ignores the signs; infinities are beyond every finite number and NaN is unordered. Maximum, minimum and clamping return the right one of their arguments, unchanged.",
  I, "all mantissas of the stated lengths with any 32-bit exponent, zero, subnormal numbers, infinities and NaN",
  "Tests compare a few hand-made values; a comparison error needs equal leading words, particular exponents or a zero operand.",
  ["num.rs", "ext.rs", "mantissa/mantissa.rs"], [("ordering", "num.rs cmp"), ("ordering of magnitudes", "num.rs abs_cmp"), ("special values", "ext.rs cmp/max/min/clamp"), ("mantissa comparison", "mantissa/mantissa.rs abs_cmp")],
  "basic", [R(8, "h_cmp_11 h_cmp_12 h_cmp_22 h_cmp_32", deadline=60), R(64, "h_minmax_11 h_minmax_21 h_clamp_1 h_cmp_special_1 h_cmp_special_2 h_cmp_11", deadline=60), T(64, "h_cmp_12 h_cmp_22")],
  "mantissas of 1 to 3 words against 1 or 2 (8-bit words), 1 against 1 (64-bit words, thorough: 2 against 2)."),
 "C09": P("Changing the precision rounds correctly",
  "Setting a number's precision to any number of bits leaves the value unchanged if it fits, and otherwise replaces it by the value rounded once to that many bits in the chosen mode; numbers at both ends of the exponent range and subnormal ones are handled alike, overflow being reported. The inexact flag is set exactly if the value changed or the flag was set before.",
  I, "all mantissas of 1 to 3 words, every precision from 1 bit to one word more than the mantissa, every rounding mode, exponents in the middle and at both limits",
  "Tests sample precisions that are multiples of the word size and random mantissas; carries out of the top word and ties are rare there.",
  ["num.rs", "mantissa/mantissa.rs"], [("precision change", "num.rs set_precision"), ("rounding", "mantissa/mantissa.rs round_mantissa"), ("length change", "mantissa/mantissa.rs set_length")],
  "num2", [R(8, "h_prec_1 h_prec_2 h_prec_3", deadline=100), R(64, "h_prec_1w", deadline=60)],
  "1 to 3 words (8-bit words, every precision), 1 word (64-bit words, selected precisions)."),
 "C10": P("Integer part, fraction, floor, ceiling and rounding to n bits are exact",
  "The integer part and the fraction split a number exactly and keep its sign; floor and ceiling are the neighbouring integers, and a number is reported as an integer exactly if its fraction is zero. Rounding to n binary places gives the multiple of 2^-n the rounding mode selects, and leaves numbers that have no more places unchanged.",
  I, "all mantissas of 1 to 3 words, exponents around every word boundary and at the limits, every rounding mode, selected n",
  "Tests check a handful of decimal values; carries over word boundaries and ties need particular bits.",
  ["num.rs", "mantissa/mantissa.rs"], [("integer and fractional part", "num.rs int/fract"), ("floor, ceil", "num.rs floor/ceil"), ("rounding to n places", "num.rs round")],
  "num2", [R(8, "h_ints_1 h_ints_2 h_ints_3 h_round_1 h_round_2", deadline=80), R(64, "h_ints_1w h_round_1w", deadline=60)],
  "1 to 3 words (8-bit words), 1 word (64-bit words); n up to 65."),
 "C16": P("Numbers are built and taken apart without loss",
  "Building a number from words accepts any mantissa and gives the canonical number of the same value; the raw constructor accepts exactly the canonical representations and the raw accessor returns what was put in. No accepted representation leaves a number whose top bit is clear outside the lowest exponent.",
  I, "all word arrays of 1 to 3 words, any exponent, sign, bit length and flag",
  "Tests build a few well-formed numbers; malformed input and exponents near the limits are not tried.",
  ["num.rs", "ext.rs", "mantissa/mantissa.rs"], [("raw parts", "num.rs from_raw_parts/as_raw_parts"), ("from words", "num.rs from_words")],
  "basic", [R(8, "h_raw_3 h_fromwords_2", deadline=60), R(64, "h_raw_1 h_raw_3 h_fromwords_1 h_fromwords_2", deadline=90)],
  "1 to 3 words, both word sizes."),
 "C18": P("Results outside the exponent range overflow and underflow properly",
  "A sum, product or quotient beyond the largest number becomes an infinity of the right sign or, where the rounding mode says so, the value the range allows; one below the smallest normal number becomes the subnormal number or zero that rounding gives. No result is silently wrapped around to the other end of the range.",
  I, "one and two word operands with exponents within a few words of both limits, subnormal operands included, all rounding modes",
  "Tests touch the limits with a few maximal and minimal constants only.",
  ["num.rs", "ext.rs", "mantissa/mantissa.rs"], [("subnormal results", "num.rs process_subnormal"), ("overflow", "num.rs add_sub/mul/div"), ("mapping of errors to values", "ext.rs result_to_ext")],
  "arith", [R(8, "h_lim_add_hi h_lim_add_hi2 h_lim_mul_hi h_lim_div_hi h_lim_mul_lo h_lim_div_lo h_lim_add_lo", deadline=130), T(8, "h_lim_add_lo2 h_lim_mul_lo2")],
  "8-bit words, 1 or 2 words, exponents within 12 of the limits. Recorded finding: subnormal results in the two nearest modes are rounded twice."),
 "C21": P("Sign and classification operations agree with the value",
  "Negation, absolute value, sign copying and the predicates for sign, zero, subnormal, infinite and NaN, and the classification, agree with the number's value and leave all other parts of it unchanged.",
  I, "all numbers of 1 to 3 words with any exponent, zero, infinities and NaN",
  "Tests call these on a few values.",
  ["num.rs", "ext.rs"], [("signs", "ext.rs set_sign/abs/neg/signum"), ("classification", "ext.rs classify/is_subnormal/is_zero")],
  "basic", [R(8, "h_signs_1 h_signs_3", deadline=40), R(64, "h_signs_1 h_signs_3", deadline=60)],
  "1 to 3 words, both word sizes."),
 "C22": P("Setting the exponent scales by a power of two",
  "Setting the exponent of a finite nonzero number keeps its sign, precision and, for normal numbers, its mantissa; for subnormal numbers the result is canonical. Zero, infinities and NaN are not affected.",
  I, "all numbers of 1 or 2 words, any old and new exponent",
  "Tests set a few exponents of normal numbers.",
  ["num.rs", "ext.rs"], [("exponent change", "num.rs set_exponent")],
  "basic", [R(8, "h_setexp_1 h_setexp_2", deadline=40), R(64, "h_setexp_1 h_setexp_2", deadline=80)],
  "1 or 2 words, both word sizes."),
 "C31": P("A guarded rounding that reports success is right for every possible error",
  "When rounding of an inexact number with a stated count of correct bits reports success, every real number closer to it than one unit of the last correct bit rounds to the returned value. The transcendental functions rely on this to return correctly rounded results.",
  I, "all mantissas of 1 to 3 words, selected target precisions and word-aligned counts of correct bits, all rounding modes, every real number within the error",
  "A wrong answer needs a long run of equal bits just behind the target precision, which random arguments never produce.",
  ["num.rs", "mantissa/mantissa.rs"], [("guarded rounding", "num.rs try_set_precision"), ("roundability analysis", "mantissa/mantissa.rs round_mantissa")],
  "num2", [R(8, "h_tryprec_1 h_tryprec_2 h_tryprec_3", deadline=80)],
  "8-bit words, 1 to 3 words, error positions resolved to 1/16 of a bit; the count of correct bits is a multiple of the word size and larger than the target precision. Recorded finding: nearest modes when whole words lie below the correct bits."),
 "C11": P("Conversions from machine numbers are exact",
  "Converting a machine integer of 8 to 128 bits, signed or unsigned, or an f32 or f64, to a number of sufficient precision gives exactly its value with its sign; infinities and NaN are kept, zero gives zero, and the number has the precision asked for. A precision too small for an integer type is refused or still gives a canonical number.",
  I, "every value of every machine integer and floating point type, at the default precision and several others",
  "Tests convert a few dozen values; the 128-bit and the subnormal ranges cannot be enumerated.",
  ["num.rs", "conv.rs", "ext.rs"], [("integers", "conv.rs from_u64/from_i64/from_u128"), ("floats", "num.rs from_f64/from_f32"), ("From implementations", "ext.rs From")],
  "spec", [R(64, "h_from_8 h_from_16 h_from_32 h_from_64 h_from_128 h_from_f32 h_from_f64", deadline=120)],
  "64-bit words; precisions 1, one bit less than the type, 64, 128 and 257. Recorded finding: subnormal f64 values are halved."),
 "C14": P("Operations with zero, infinite and NaN operands give the defined result",
  "The arithmetic operations return the documented NaN, infinity or zero of the right sign when an operand is zero, infinite or NaN: opposite infinities, zero times infinity, and 0/0 give NaN, a nonzero number over zero an infinity, a NaN operand a NaN that keeps its error. Adding zero leaves the other number unchanged, and a precision outside the supported range gives a NaN with an error instead of a panic.",
  I, "every combination of zero, subnormal, normal, infinite and NaN operands with any mantissa and exponent, for 8 two-operand and 16 one-operand operations; all unsupported precisions",
  "Tests list the combinations for single finite values; a special case that looks at the wrong operand's sign or kind for some mantissas or exponents escapes.",
  ["ext.rs", "num.rs"], [("dispatch on special values", "ext.rs add/sub/mul/div/rem"), ("mapping of errors to values", "ext.rs result_to_ext"), ("precision check", "num.rs p_assertion")],
  "spec", [R(64, "h_special2_1 h_special1_1 h_badprec", deadline=120), R(8, "h_special2_2 h_special1_2", deadline=120)],
  "1 word (64-bit words) or 2 words (8-bit words). The sign of a zero result is left open except where the operation keeps it."),
 "C24": P("Elementary functions respect their domain, special and exact values",
  "Elementary functions of zero, infinities and NaN give the defined limit or NaN; an argument outside the domain (above 1 in magnitude for asin, acos, atanh, below 1 for acosh, negative for logarithms and fractional powers) gives NaN with an error for every mantissa and exponent. Exact results are exact: logarithms of 1 and of powers of two, powers with exponent 0, 1 or -1, and exponentials far out of range overflow or underflow.",
  I, "every mantissa and 32-bit exponent of the argument, both signs, zero, infinities, NaN",
  "Tests try one or two values on each side; the boundary is decided by exponent and mantissa together.",
  ["ext.rs", "ops/pow.rs", "ops/log.rs", "ops/tanh.rs"], [("special values and domain", "ext.rs gen_wrapper_log/trig functions"), ("exact powers", "ops/pow.rs pow"), ("powers of two", "ops/log.rs log2"), ("saturation", "ops/tanh.rs tanh")],
  "spec", [R(64, "h_fspecial_1 h_fdomain_1 h_fdomain_2 h_fexact_1 h_fexact_2", deadline=200)],
  "1 or 2 words (64-bit words), precisions up to 3 words."),
 "C32": P("Functions of tiny arguments are correctly rounded",
  "For an argument so close to zero that the function differs from its first-order value (x, or 1) by less than half a unit in the last place of either, sine, cosine, tangent, exponential, the hyperbolic functions and the inverse functions return that value moved by an infinitesimal in the right direction, rounded once in the given mode, and flagged inexact. This includes subnormal arguments and those at the lowest exponents.",
  I, "every mantissa of 1 or 2 words, both signs, every exponent from the lowest to the largest for which the statement applies, all rounding modes, several precisions",
  "The direction matters only for results that are exactly representable or ties; tests use arguments of moderate size.",
  ["ops/util.rs", "num.rs", "ops/pow.rs", "ops/sin.rs", "ops/tan.rs"], [("first-order result", "ops/util.rs compute_small_exp"), ("directed correction", "num.rs add_correction")],
  "spec", [R(64, "h_tiny_1 h_tiny_1t h_tiny_1e h_tiny_1s h_tiny_2 h_tiny_2t h_tiny_2e h_tiny_2s", deadline=200)],
  "1 or 2 words (64-bit words), precisions 1, 64, 65 and 192."),
 "C12": P("Digits in radix 2, 8 and 16 convert exactly",
  "Converting digits in radix 2, 8 or 16 with an exponent to a number gives the value of the digits, exactly if the precision is left to be chosen and otherwise rounded once in the given mode; leading and trailing zeros, all-zero digits, and values at or beyond both ends of the exponent range are included. Converting a finite number to such digits gives a sign, digits below the radix and an exponent whose value is exactly the number. A digit the radix does not have is refused.",
  I, "all digit strings of the stated lengths, any exponent, both signs, every rounding mode; all mantissas of the stated lengths with any exponent",
  "The tests convert random normalised numbers there and back; zeros in front, word boundaries inside an octal digit and exponents near the limits do not occur.",
  ["conv.rs", "num.rs"], [("binary digits", "conv.rs conv_from_binary/conv_to_binary"), ("octal and hexadecimal digits", "conv.rs conv_from_commensurable/conv_to_commensurable")],
  "conv", [R(8, "h_frombin h_frombin_hi h_fromoct h_fromoct_hi h_fromhex h_fromhex_hi h_baddigit h_tobin_1 h_tooct_1 h_tohex_1 h_tooct_2 h_tohex_2 h_tohex_3", deadline=100), R(8, "h_frombin_lo h_fromoct_lo h_fromhex_lo h_tooct_3", deadline=80), R(64, "h_fromhex_l h_fromoct_l h_frombin h_fromhex_lo h_baddigit", deadline=80),
   T(8, "h_tobin_2")],
  "8-bit words: up to 12 binary, 7 octal and 6 hexadecimal digits, numbers of up to 3 words (binary digits: 1 word); 64-bit words: up to 23 octal and 20 hexadecimal digits. Recorded finding: subnormal results in the two nearest modes are rounded twice."),
 "C13": P("Decimal digits convert with correct rounding",
  "Converting decimal digits with an exponent to a number gives the value of the digits rounded once to the precision in the given mode, exact values and ties included. Converting a number to decimal digits gives the number rounded once, in the given mode, to the number of digits its precision is worth, without trailing zeros.",
  I, "all decimal digit strings of up to 3 digits with exponents from a list, and all those that are a tie or next to one with 9 (8-bit words) or 65 bits; all one-word mantissas and longer ones that vary in low bits around fixed patterns",
  "A wrong rounding needs digits whose value is within a tiny distance of a midpoint, and a lost zero inside the digits needs a block of them in the right place.",
  ["conv.rs", "mantissa/conv.rs", "num.rs"], [("digits to number", "conv.rs conv_from_dec"), ("number to digits", "conv.rs conv_to_dec"), ("divide and conquer digit extraction", "mantissa/conv.rs conv_to_dec")],
  "conv", [R(8, "h_fromdec_1 h_fromdec_2", deadline=60), R(8, "h_fromdec_3 h_todec_1", deadline=100), R(8, "h_todec_2p h_todec_3p h_fromdec_ties", deadline=110), R(8, "h_todec_h2 h_todec_h3", deadline=70, timeout=30000, exact=1000), R(64, "h_fromdec_tie64 h_fromdec_tie64l h_todec_1", deadline=70, exact=1000),
   T(8, "h_fromdec_4 h_fromdec_tie h_fromdec_tiel h_todec_2 h_todec_4p"), T(8, "h_todec_h4", exact=1000), T(64, "h_todec_h64", exact=1000)],
  "8-bit words: up to 3 digits, exponents between -31 and 45, results of 1 or 2 words, numbers of 1 to 3 words; 64-bit words: digit strings of 79 and 85 digits that are ties of 65 bits or next to them."),
 "C15": P("Text is read by the documented grammar",
  "Reading a text in radix 2, 8, 10 or 16 gives the number it denotes: optional sign, digits with or without a point, optional exponent, upper and lower case alike, any number of leading zeros, rounded once; infinities by their name with their sign, NaN for NaN and for text that does not begin like a number. Exponents too large for the range, however many digits they have, give infinity or zero, zero digits give zero, and no text whatsoever makes it panic.",
  I, "all texts of up to 3 to 5 arbitrary characters, and all texts of the grammar with the stated numbers of digits in each part; exponents of up to 34 digits",
  "Tests try combinations of well-formed parts with moderate exponents in radix 10.",
  ["parser.rs", "ext.rs", "conv.rs"], [("grammar", "parser.rs parse/parse_num/parse_digits"), ("exponents", "parser.rs parse_exp"), ("special values", "ext.rs parse")],
  "conv", [R(8, "h_parse_bin h_parse_oct h_parse_hex h_parseany_bin h_parseany_dec h_fromstr", deadline=110), R(8, "h_parse_dec h_parsefar_bin h_parsefar_oct h_parsefar_hex h_parsefar_dec", deadline=170), R(64, "h_parseany_hex h_parseany_oct h_parse_bin", deadline=100)],
  "Numbers: up to 3 digits before and 2 behind the point, 3 exponent digits; one character may be a non-ASCII one of two bytes. What follows a complete number is left open."),
 "C28": P("Formatting in radix 2, 8 and 16 and reading back gives the same number",
  "Formatting a finite number in radix 2, 8 or 16 and reading the text with the number's precision, or with automatic precision, gives the same number, with its sign, at every exponent including the limits and for subnormal numbers and zero.",
  I, "all mantissas of 1 or 2 words, thirteen exponents including both limits, both signs, subnormal numbers and zero",
  "The round trip of random normal numbers never meets a subnormal number or an exponent at the limit.",
  ["strop.rs", "conv.rs", "parser.rs"], [("text of a number", "strop.rs format"), ("digits of a number", "conv.rs convert_to_radix"), ("reading", "parser.rs parse")],
  "conv", [R(8, "h_tripbin_1 h_trippoct_1 h_triphex_1 h_trippoct_2 h_triphex_2", deadline=100), R(64, "h_triphex_1 h_trippoct_1", deadline=100), T(8, "h_tripbin_2")],
  "1 or 2 words (8-bit words), 1 word (64-bit words); exponents 0, 1, -1, 3, -4, 17, -250, 999999, -1000001 and the limits."),
}

def N(title, statement, over, text, why, files, mech, reason):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=[M + f for f in files],
                mech=[dict(name=n, where=M + w) for n, w in mech], reason=reason)

NOT_APPLICABLE = {
 "C26": N("Transcendental functions are correctly rounded",
  "Exponential, logarithms, powers, trigonometric, inverse trigonometric, hyperbolic and inverse hyperbolic functions return the exact value rounded once in the given mode.",
  I, "all finite arguments, precisions and rounding modes",
  "Hard arguments, whose value lies extremely close to a midpoint, are rare.",
  ["ops/pow.rs", "ops/log.rs", "ops/sin.rs"], [("series with error bound and repeated rounding", "ops/pow.rs exp")],
  "The exact value is irrational: there is no exact integer oracle, and the series use tens of multiplications of many words, which no SAT solver decides. C31 decides the rounding step they share."),
 "C27": N("Cached constants agree with freshly computed ones",
  "A constant taken from the constants cache is the same correctly rounded value whatever precisions were asked for before.",
  ["histories"], "all sequences of requested precisions",
  "Tests ask for increasing precisions.",
  ["ops/consts/mod.rs"], [("caches of pi, e, ln 2 and ln 10", "ops/consts/mod.rs Consts")],
  "The first request computes about 1000 bits by binary splitting; the computation has concrete inputs only, so executing it symbolically is a concrete run and nothing is left for a solver to decide."),
 "C29": N("The expression macro compensates for the error of its operations",
  "The value of a macro expression is the exact value of the expression rounded to the context's precision.",
  I, "all expressions and argument values",
  "Tests use a few expressions.",
  ["ctx.rs", "ext.rs"], [("precision increase for cancellation", "ctx.rs Context")],
  "The macro crate rewrites arbitrary Rust expressions at compile time, and the compensation matters for transcendental functions, which are out of reach of a solver."),
 "C30": N("Serialisation round trips",
  "Serialising a number and reading it back gives the same number.",
  I, "all numbers",
  "Tests use a few numbers.",
  ["for_3rd/ser.rs", "for_3rd/de.rs"], [("serialisation as text", "for_3rd/ser.rs")],
  "It is a decimal string conversion plus the serde framework, behind a feature that the verified build does not enable."),
}
