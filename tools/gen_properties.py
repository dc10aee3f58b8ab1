#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
L, I, P = "src/lib.rs", "src/ieee.rs", "src/ppc.rs"
IN = ["inputs"]
CFG = ["inputs", "configurations"]
props = []

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Addition and subtraction are correctly rounded",
  "For all non-NaN operands of any IEEE-style format and each of the five rounding modes, add and subtract return exactly the infinitely precise sum or difference rounded once to the format, with gradual underflow, overflow to infinity (NaN in the format that has none) or to the largest finite value as the mode demands, and the IEEE sign for zero results. Opposite infinities added (equal ones subtracted) give NaN.",
  CFG, "all operand pairs x 5 rounding modes x every format (8 shipped, any other format defined through the public Semantics trait)",
  "tests/ieee.rs checks a few dozen Single pairs in nearest-even and the E4M3FN pairs; rounding depends on every bit of both significands, the exponent gap and the mode.",
  [I, L], [("add_r / sub_r special cases and sign of zero", "src/ieee.rs: impl Float for IeeeFloat"), ("alignment, borrow and lost-fraction tracking", "src/ieee.rs: sig::add_or_sub"), ("rounding and overflow", "src/ieee.rs: IeeeFloat::normalize, overflow_result, round_away_from_zero")],
  ["Float::add_r", "Float::sub_r", "Add/Sub operators"])
p("C02", "Multiplication and division are correctly rounded",
  "For all non-NaN operands of any IEEE-style format and each rounding mode, multiply and divide return exactly the infinitely precise product or quotient rounded once to the format, including subnormal operands and results, overflow and the sign of zeros and infinities. Zero times infinity, zero over zero and infinity over infinity give NaN; a non-zero finite value over zero gives a correctly signed infinity (NaN in the format that has none).",
  CFG, "all operand pairs x 5 rounding modes x every format",
  "Tests check special values and a handful of products; the divider has four algorithms selected by divisor width that tests barely reach.",
  [I, L], [("mul_r / div_r", "src/ieee.rs: impl Float for IeeeFloat"), ("wide multiply", "src/ieee.rs: sig::mul, sig::widening_mul"), ("short and long division, lost fraction", "src/ieee.rs: sig::div"), ("rounding", "src/ieee.rs: normalize")],
  ["Float::mul_r", "Float::div_r"])
p("C03", "Fused multiply-add rounds exactly once",
  "For all finite or infinite operands a, b, c of any IEEE-style format and each rounding mode, fused multiply-add returns exactly a*b+c computed with infinite precision and rounded once, including when the product or the addend is subnormal, when the product alone would overflow or underflow, on full or partial cancellation, and with the IEEE sign for exact zero results. Zero times infinity, and an infinite product plus the opposite infinity, give NaN.",
  CFG, "all operand triples x 5 rounding modes x every format",
  "Tests hold about 60 triples, all nearest-even, mostly NaN/infinity; double rounding or a sticky-bit error only shows for particular alignments of a 2p-bit product with an addend.",
  [I, L], [("extended precision product and addend alignment", "src/ieee.rs: mul_add_r"), ("two-limb add/sub with lost fraction", "src/ieee.rs: sig::add_or_sub"), ("rounding", "src/ieee.rs: normalize")],
  ["Float::mul_add_r", "Float::mul_add"])
p("C04", "Arithmetic reports exactly the right exception flags",
  "The status returned by add, subtract, multiply, divide and fused multiply-add contains INEXACT exactly when the delivered value differs from the exact result, OVERFLOW exactly when finite operands (other than division by zero) deliver infinity (NaN in the format that has none), UNDERFLOW exactly when the delivered value is inexact and subnormal or zero, DIV_BY_ZERO exactly for non-zero finite over zero, and INVALID_OP exactly for signaling NaN operands and invalid operations. No other flag is ever raised, and OVERFLOW and UNDERFLOW never come without INEXACT.",
  CFG, "all operand tuples x 5 rounding modes x every format",
  "Most tests check only the value, or the status of a few special operands; flags are an independent output that consumers such as constant folders rely on.",
  [I, L], [("loss to status mapping", "src/ieee.rs: normalize, overflow_result"), ("status of special operands", "src/ieee.rs: add_r, mul_r, div_r, mul_add_r, IeeeDefaultExceptionHandling"), ("Status bit set", "src/lib.rs: Status")],
  ["StatusAnd.status of add_r, sub_r, mul_r, div_r, mul_add_r"])
p("C05", "Both remainders are exact",
  "For all finite x and finite non-zero y, the C-style remainder returns exactly x - n*y with n = x/y truncated, and the IEEE remainder returns exactly x - n*y with n = x/y rounded to nearest (ties to even); zero results carry the sign of x and no exception is raised, whatever the exponent distance. A zero divisor or infinite dividend gives NaN with INVALID_OP, and an infinite divisor returns x unchanged.",
  CFG, "all operand pairs x every format",
  "Tests hold a few dozen Double pairs; the iterative reduction depends on all exponent distances, on subnormal divisors and on values whose double overflows.",
  [I, L], [("iterative subtraction of scaled divisors", "src/ieee.rs: c_fmod"), ("reduction by 2y then at most two subtractions, lossless doubling", "src/ieee.rs: ieee_rem")],
  ["Float::c_fmod", "Float::ieee_rem", "Rem operator"])
p("C06", "Rounding to an integral value honours the mode and reports inexactness",
  "For every value and each rounding mode, round-to-integral returns the integer the mode selects (nearest with the stated tie rule, or directed), keeps the sign of the operand even when the result is zero, leaves infinities and already integral values unchanged, and reports INEXACT exactly when the value changed. The is-integer query is true exactly for finite integral values.",
  CFG, "all values x 5 rounding modes x every format",
  "Tests cover about twenty Double values; the magic-constant algorithm can break at any exponent near the precision.",
  [I, L], [("add/subtract 2^(p-1) trick with early exit", "src/ieee.rs: round_to_integral"), ("is_integer", "src/lib.rs: Float::is_integer")],
  ["Float::round_to_integral", "Float::is_integer"])
p("C07", "Float to integer conversion rounds, saturates and reports exactness correctly",
  "For every value, every width from 1 to 128 bits, signed or unsigned, and each rounding mode, conversion to an integer returns the correctly rounded integer with OK or INEXACT when it fits, and otherwise returns zero for NaN or the nearest representable bound with INVALID_OP. The exactness output is true exactly when converting back reproduces the original value, so it is false for negative zero.",
  CFG, "all values x widths 1..128 x signedness x 5 rounding modes x every format",
  "Tests check seven Double conversions at width 5 and a few 128-bit round trips.",
  [I, L], [("truncate, round, range check", "src/ieee.rs: to_u128_r"), ("signed wrapper", "src/lib.rs: Float::to_i128_r")],
  ["Float::to_u128_r", "Float::to_i128_r", "is_exact output"])
p("C08", "Integer to float conversion is correctly rounded",
  "For every signed or unsigned 128-bit integer and each rounding mode, conversion to any IEEE-style format returns the integer correctly rounded (exact when representable, overflowing as the mode demands when too large) with INEXACT exactly when the value changed, OVERFLOW exactly when infinity (NaN in the format that has none) is delivered, and positive zero for 0.",
  CFG, "all i128/u128 inputs x 5 rounding modes x every format",
  "Tests convert only a few integers; ties and carries occur at every bit position around the target precision.",
  [I, L], [("normalize a raw 128-bit significand", "src/ieee.rs: from_u128_r"), ("sign and mirrored rounding mode", "src/lib.rs: Float::from_i128_r")],
  ["Float::from_u128_r", "Float::from_i128_r", "Float::from_u128", "Float::from_i128"])
p("C09", "Conversion between formats is correctly rounded and reports information loss",
  "For every value of every source format, every target format and each rounding mode, conversion returns the source value correctly rounded to the target, keeps zeros and infinities with their sign (infinity becomes NaN with INEXACT where the target has none), turns NaNs into quiet NaNs of the same sign keeping the leading payload bits, and raises INVALID_OP exactly for signaling NaNs. The information-loss output is true exactly when a finite value changed, an infinity or NaN payload could not be kept, or an unsupported or signaling x87 NaN was replaced by another format's NaN.",
  CFG, "all source values x all ordered pairs of formats x 5 rounding modes",
  "Tests check about thirty conversions between five format pairs; double rounding through subnormals depends on the pair of exponent ranges and precisions.",
  [I, L], [("subnormal-aware truncation shift", "src/ieee.rs: FloatConvert::convert_r"), ("NaN quieting and payload shift", "src/ieee.rs: convert_r, IeeeDefaultExceptionHandling"), ("rounding", "src/ieee.rs: normalize")],
  ["FloatConvert::convert_r", "loses_info output"])
p("C10", "NaN operands propagate, are quieted and signal correctly",
  "When any operand of add, subtract, multiply, divide, either remainder, fused multiply-add or round-to-integral is NaN, the result is a quiet NaN that keeps the sign and payload of the first NaN operand in argument order (for fused multiply-add, the product's operands before the addend), and INVALID_OP is reported exactly when some operand is a signaling NaN or, for fused multiply-add, the product is zero times infinity (which gives any quiet NaN). NaNs produced from non-NaN operands are always quiet, and negation, absolute value and copy-sign change only the sign of a NaN.",
  CFG, "all NaN encodings (sign, quiet bit, payload) in every operand position x all other operands x every format",
  "Tests use default NaNs; payload, sign and signaling combinations in both positions are not enumerated.",
  [I, L], [("NaN selection and quieting", "src/ieee.rs: IeeeDefaultExceptionHandling"), ("qnan/snan construction", "src/ieee.rs: IeeeFloat::qnan, snan"), ("sub keeps rhs sign, mul/div restore sign", "src/ieee.rs: sub_r, mul_r, div_r")],
  ["to_bits() and status of every arithmetic operation", "Float::qnan", "Float::snan"])
p("C11", "Comparison and min/max agree with the order of the represented values",
  "For all operands of any format, ordering and equality comparisons agree with the order of the exact values, with -0 equal to +0, infinities at the ends and NaN unordered to everything; magnitude comparison agrees with the order of absolute values and bitwise equality with identity of encodings. minNum/maxNum return the smaller/larger operand and the other operand when one is NaN; minimum/maximum do the same but return the NaN operand and treat -0 as less than +0.",
  CFG, "all operand pairs x every format",
  "The comparison test uses ten values of one format; ordering is a relation over all pairs including subnormals and equal-exponent significands.",
  [I, L], [("partial_cmp, eq", "src/ieee.rs: impl PartialOrd for IeeeFloat"), ("cmp_abs_normal, bitwise_eq", "src/ieee.rs"), ("min/max/minimum/maximum", "src/lib.rs: Float")],
  ["PartialOrd", "PartialEq", "Float::{min,max,minimum,maximum,cmp_abs_normal,bitwise_eq}"])
p("C12", "Bit encodings, classification and constants match the format definitions",
  "Every bit pattern of every format decodes to exactly the sign, class and value its format defines and encodes back to the same bits; x87 patterns without a proper integer bit follow the documented rule (pseudo-denormals are the equal normal value, the other unsupported patterns are NaN). All class and sign queries agree with the encoding, and the named constants and NaN factories have the encodings the format prescribes.",
  CFG, "all bit patterns of every format (2^8, 2^16, and boundary lattices of the larger ones)",
  "Tests decode only selected patterns; 8-bit E4M3FN is the only format enumerated today, and only through conversion.",
  [I, L], [("generic and x87 from_bits/to_bits", "src/ieee.rs: Semantics::from_bits/to_bits, X87DoubleExtendedS"), ("constants", "src/ieee.rs: ZERO, INFINITY, NAN, SMALLEST, largest, smallest_normalized, qnan, snan"), ("queries", "src/lib.rs: Float::is_*")],
  ["Float::from_bits", "Float::to_bits", "Float::category and is_* queries", "constants", "neg/abs/copy_sign"])
p("C13", "next-up and next-down step to the adjacent value",
  "For every value, next-up returns the least value of the format greater than it (crossing exponent and subnormal boundaries, stepping from -smallest to -0, from either zero to +smallest, from -infinity to -largest, and from largest to infinity or the format's NaN), next-down is its mirror image, infinities saturate, quiet NaNs are returned unchanged and signaling NaNs give a quiet NaN of the same sign with INVALID_OP. No other exception is raised.",
  CFG, "all values x every format",
  "Tests check some 30 values of Quad and x87 boundaries; adjacency is a statement about every pair of neighbours.",
  [I, L], [("increment/decrement with binade crossing", "src/ieee.rs: next_up"), ("next_down by negation", "src/lib.rs: next_down")],
  ["Float::next_up", "Float::next_down"])
p("C14", "Exponent manipulation is exact up to one rounding",
  "For every finite value and every 32-bit exponent, scaling by a power of two returns value * 2^n correctly rounded once in the given mode; the exponent query returns floor(log2|x|) for every non-zero finite value including subnormals and the documented sentinels otherwise; fraction/exponent decomposition returns f with 0.5 <= |f| < 1 and f * 2^e equal to the value. The exact inverse is returned exactly when the value is a normal power of two whose reciprocal is a normal value, and is then exactly that reciprocal.",
  CFG, "all values x all i32 exponents x 5 rounding modes x every format",
  "Tests hold about fifty Double cases; clamping of wild exponents and rounding into the subnormal range are not enumerated.",
  [I, L], [("clamp then normalize", "src/ieee.rs: scalbn_r"), ("ilogb via normalize", "src/ieee.rs: ilogb"), ("frexp_r", "src/ieee.rs"), ("get_exact_inverse", "src/ieee.rs")],
  ["Float::{scalbn_r,ilogb,frexp_r,get_exact_inverse}"])
p("C15", "Decimal strings are read with correct rounding",
  "For every syntactically valid decimal number of any length and exponent and each rounding mode, parsing returns the exact decimal value correctly rounded to the format, with INEXACT exactly when the value is not represented exactly, OVERFLOW|INEXACT when infinity (NaN in the format that has none) is delivered and UNDERFLOW|INEXACT when an inexact subnormal or zero is delivered. Leading or trailing zeros, the position of the point and equivalent exponents do not change the result.",
  CFG, "all valid decimal strings x 5 rounding modes x every format",
  "Tests read some 60 short literals in nearest-even; the approximate algorithm with increasing precision is only stressed by long decimals very near a rounding boundary.",
  [I], [("digit collection, exponent range cut-offs", "src/ieee.rs: from_decimal_string"), ("power-of-five approximation with error bound and retry", "src/ieee.rs: from_decimal_string, sig::from_limbs, sig::mul, sig::div"), ("rounding", "src/ieee.rs: normalize")],
  ["Float::from_str_r", "FromStr"])
p("C16", "Hexadecimal strings are read with correct rounding",
  "For every syntactically valid C99 hexadecimal number of any length and exponent and each rounding mode, parsing returns the exact value correctly rounded to the format with the matching exception flags. Digits beyond the internal capacity still take part in rounding as if infinitely precise, wild exponents saturate correctly, and zeros and the point position do not change the result.",
  CFG, "all valid hexadecimal strings x 5 rounding modes x every format",
  "Tests read about 50 short literals, almost all exactly representable.",
  [I], [("nibble accumulation with lost fraction", "src/ieee.rs: from_hexadecimal_string"), ("rounding", "src/ieee.rs: normalize")],
  ["Float::from_str_r", "FromStr"])
p("C17", "Parsing accepts exactly the documented syntax and never panics",
  "Parsing terminates without panicking on every string, accepts exactly the decimal, hexadecimal, infinity and NaN spellings of the language and rejects everything else with an error. A leading sign negates the value (including zeros, infinities and NaNs) and mirrors the rounding mode, and NaN spellings yield quiet or signaling NaNs with the written payload truncated to the format.",
  ["inputs"], "all strings (checked: all strings up to a length bound over an alphabet with one symbol per lexical class)",
  "Tests list about 120 hand-picked accepted and rejected strings.",
  [I, L], [("sign, specials, payload radix", "src/ieee.rs: from_str_r"), ("decimal and hexadecimal scanners", "src/ieee.rs: from_decimal_string, from_hexadecimal_string")],
  ["Float::from_str_r", "FromStr", "ParseError"])
p("C18", "Printed decimals have the right digits and layout",
  "Formatting a finite value with at most n significant digits (n given, or the format's natural precision when absent) prints the exact value when that needs no more than n digits and otherwise the nearest n-digit decimal (a tie goes away from zero), never padded with spurious digits. Positional or scientific notation, zero padding, sign, exponent spelling and the alternate form follow the documented precision/width table; zeros, infinities and NaN print their fixed spellings.",
  CFG, "all values x precisions x widths x plain/alternate form x every format",
  "Tests print about thirty Double values.",
  [I, P], [("exact conversion to decimal, digit discarding, rounding carry", "src/ieee.rs: impl Display for IeeeFloat"), ("layout selection", "src/ieee.rs: impl Display for IeeeFloat")],
  ["Display", "format!(\"{:w$.p$}\")"])
p("C19", "Printing and reading back reproduces every value",
  "For every value of every format, formatting with default precision in either the plain or the alternate form, at any width setting, and parsing the text in nearest-even mode gives back the same value with the same sign (any NaN for a NaN).",
  CFG, "all values of every format",
  "Tests round-trip the 8-bit formats' values and a few specials.",
  [I, P], [("precision formula 2 + P*59/196", "src/ieee.rs: impl Display"), ("decimal reader", "src/ieee.rs: from_decimal_string")],
  ["Display", "FromStr"])
p("C20", "Double-double encoding, comparison, classification and sign follow the exact sum",
  "A double-double encodes as the pair of its high and low halves and decodes back to the same bits; negation, absolute value and copy-sign change the sign of the represented sum and nothing else; comparison of canonical values, absolute-value comparison and equality agree with the order of the exact sums. Class queries follow the high half, a value is reported denormal exactly when either half is subnormal or the pair is not canonical, it is an integer exactly when both halves are, and named constants are the documented extremes.",
  CFG, "all canonical (and for encoding/class queries all) pairs of halves of a small component format exhaustively, boundary lattices of Double",
  "Tests use a few dozen pairs.",
  [P, L], [("derived lexicographic comparison, cmp_abs_normal", "src/ppc.rs"), ("from_bits/to_bits, Neg", "src/ppc.rs"), ("is_denormal, is_integer, constants", "src/ppc.rs")],
  ["ppc::DoubleDouble: PartialOrd, cmp_abs_normal, Neg, is_*, from_bits, to_bits"])
p("C21", "Double-double sums, differences and products are accurate and canonical",
  "In nearest modes, add, subtract and multiply of canonical double-doubles return a high half and a low half of at most half its last place, whose sum is within a few units of 2^-2p (p = precision of a half) of the exact result relative to the operands (plus a few least subnormals for products), and exact when both operands have no low half and the result is representable; in directed modes the error stays within a few dozen such units and the low half below one last place of the high half. Results overflow, to infinity with OVERFLOW or (rounded inwards) to the largest number, only within a relative 2^(3-p) of the largest number or beyond, and finite operands never give NaN. Infinities, zeros (including the sign of an exact zero) and NaNs follow the IEEE rules in every mode, with product signs from both operands and INVALID_OP for inf - inf and 0 * inf.",
  CFG, "all pairs of canonical double-doubles over a small component format exhaustively; boundary lattices of Double",
  "Tests check about 60 hand-picked pairs.",
  [P, I], [("Linnainmaa add/mul", "src/ppc.rs: add_r, mul_r")],
  ["ppc::DoubleDouble: add_r, sub_r, mul_r"])
p24 = lambda: p("C24", "Other double-double operations act like 2p-bit arithmetic, and none panics",
  "Divide, remainders, fused multiply-add, round-to-integral, adjacent values, exact inverse, conversions to and from integers, parsing and printing of double-doubles give the value and status of the correspondingly rounded 2p-bit arithmetic, split into a high and a low half, and printed values read back. Scaling by a power of two and fraction/exponent splitting act on both halves, exactly when those are representable, and scaling beyond the largest number gives infinity. No operation panics on any pair of halves, in any rounding mode.",
  CFG, "all pairs of halves of small component formats (one operand), pairs and triples of canonical double-doubles; boundary lattices of Double",
  "Tests use a handful of values, only nearest-even.",
  [P, I], [("fallback 2p-bit semantics and re-splitting", "src/ppc.rs: From<Fallback<F>>, From<DoubleFloat<F>>"), ("scalbn_r, frexp_r, ilogb", "src/ppc.rs")],
  ["ppc::DoubleDouble: div_r, ieee_rem, c_fmod, mul_add_r, round_to_integral, next_up, from_u128_r, to_u128_r, from_str_r, Display, scalbn_r, frexp_r"])
p("C22", "Values have no hidden state: results depend only on the represented value",
  "Along every sequence of operations, starting from any bit pattern, constant, integer or string, each value reached behaves in every later operation and query exactly like a value freshly decoded from its own bit encoding, and no operation panics. Equal operands therefore always give equal results, whatever history produced them.",
  ["histories", "inputs"], "all operation sequences up to a depth over all values of small formats, and over seed values of the shipped formats",
  "Unit tests start from fresh literals and apply one operation; representation drift (stale exponent or significand under a special category) needs a multi-step history.",
  [I, L], [("category/sign kept read-only, canonicalisation in normalize and to_bits", "src/ieee.rs: IeeeFloat, normalize")],
  ["all public operations"],
  [("sig/exp/category/sign", "internal representation of a value", "src/ieee.rs: struct IeeeFloat")])
p("C23", "Operators and default-rounding methods agree with the explicit ones",
  "The +, -, *, /, % operators, their assigning forms, and the methods without a rounding-mode parameter return exactly what the corresponding explicit-rounding method returns for round-to-nearest-even (truncation for float-to-integer), signed integer and absolute-value/copy-sign/next-down helpers mirror their unsigned or positive counterparts, string parsing through FromStr matches the explicit method, and the default value is +0. Result wrappers keep value and status unchanged when mapped and unwrap only clean results.",
  CFG, "all operands x every format, including double-double",
  "Tests exercise each operator once.",
  [L, I, P], [("float_common_impls! macro", "src/lib.rs"), ("Float/FloatConvert provided methods", "src/lib.rs"), ("StatusAnd::{map,unwrap}, unpack!", "src/lib.rs")],
  ["operators", "provided trait methods", "StatusAnd"])

p24()
p("C25", "Every operation ends, without panicking, in a well-formed result",
  "For every encoding of the operands (NaNs of any payload and x87 encodings without a proper integer bit included), every rounding mode, every shift count, every integer width 1 to 128, every formatting precision and width, and every input string, each operation of the eight formats terminates without panicking or arithmetic overflow. The value it returns fits the format's width, decodes from its own encoding to an identical value, and is in exactly one category; integer results fit the requested width, fractions lie in [1/2, 1), rounded-to-integral values are integers, comparison is antisymmetric and unordered exactly for NaNs, and text consists of the characters of a number. OVERFLOW and UNDERFLOW come only with INEXACT, INVALID_OP and DIV_BY_ZERO come alone and with a NaN and an infinity (NaN where there is none).",
  CFG, "all values, pairs and triples of small formats, corner values and every exponent of the shipped ones, all token sequences up to a depth",
  "A panic or a malformed value needs one extreme operand, count or option; tests pass ordinary ones.",
  [I, L], [("assertions and plain arithmetic on exponents and shifts", "src/ieee.rs: normalize, scalbn_r, add_or_sub, from_decimal_string, from_hexadecimal_string, Display"), ("encodings", "src/ieee.rs: to_bits, from_bits")],
  ["all public operations of IeeeFloat"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
print(len(props), "properties")
