#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
LAY = "all layouts i16/i32/i64/i128, every precision P whose 10^P fits the layout"
L, O, S, F, M, D = "src/lib.rs", "src/ops/mod.rs", "src/string.rs", "src/float.rs", "src/macros.rs", "src/serde.rs"

prop("C01", "Checked add/sub/neg/abs/integer-mul are exact or report Overflow",
 "For every two values of a fixed-point type (and for every two primitive signed integers, and every fixed-point value times an integer in either order), checked addition, subtraction, integer multiplication, negation and absolute value return exactly the mathematical result whenever it lies between MIN and MAX, and return the Overflow error otherwise. They never panic, wrap, clamp or lose a digit. `signum` is -1, 0 or 1 according to the sign of the number.",
 ["inputs"], f"all operand pairs; {LAY}; primitive i8..i128",
 "Tests sample about twenty operand pairs for two types (i64/9, i128/18); overflow edges of other layouts and precisions are never reached.",
 [L, O], [("CheckedAdd/CheckedSub/CheckedMul impls, cneg, abs", L), ("impl_for_ints!", O)],
 ["FixedPoint::{cadd,csub,cmul,cneg,abs,signum}", "i8..i128::{cadd,csub,cmul}"])
prop("C02", "Saturating operations equal the checked result or clamp to the right bound",
 "Saturating addition, subtraction, integer multiplication and rounding multiplication return the same value as the corresponding checked operation whenever that succeeds. When the mathematical (rounded) result is out of range they return MAX if it is above the range and MIN if it is below, for every combination of operand signs and for both operand orders of the integer multiplication. They never panic. The same holds for the saturating methods that the traits provide to user types which implement only the checked operations.",
 ["inputs"], f"all operand pairs and rounding modes; {LAY}; primitive i8..i128",
 "Tests have a handful of saturation examples on i64/9 and i128/18 and not every sign combination.",
 [L, O], [("saturating_add/sub/mul/rmul default methods", O), ("saturating overrides", L)],
 ["saturating_add", "saturating_sub", "saturating_mul", "saturating_rmul"])
prop("C03", "Rounding multiplication is the correctly rounded product or Overflow",
 "For every two fixed-point values a and b and every rounding mode, `rmul` returns the exact product rounded to the type's precision: Floor gives the largest representable step not above the product, Ceil the smallest not below it, Nearest the closest one with exact ties going away from zero. If and only if that rounded value is outside MIN..MAX the result is the Overflow error. It never panics and the operands commute.",
 ["inputs"], f"all operand pairs x 3 modes; {LAY} (i128 goes through 256-bit arithmetic)",
 "Tests check tens of products on two types; ties, near ties, limb-carry patterns of the 256-bit path and other precisions are unsampled.",
 [L, "src/i256/mod.rs", "src/i256/u256.rs"], [("RoundingMul impl", L), ("I256 Mul/Div", "src/i256")],
 ["FixedPoint::rmul"])
prop("C04", "Rounding division of fixed-point numbers is correctly rounded",
 "For every dividend (a fixed-point number, or an integer of the layout type), every fixed-point divisor and every rounding mode, `rdiv` returns the exact quotient rounded to the type's precision (Floor down, Ceil up, Nearest closest with ties away from zero); `recip` does the same for 1/x. Division by zero gives the DivisionByZero error; a rounded quotient outside MIN..MAX gives Overflow (as does an integer dividend that the type cannot represent), and nothing else is an error. It never panics.",
 ["inputs"], f"all operand pairs x 3 modes; {LAY}",
 "Tests sample tens of quotients on two types; divisors with |d| > MAX/2, MIN, ties and multi-limb divisions of the 256-bit path are unsampled.",
 [L, "src/i256/mod.rs", "src/i256/u256.rs"], [("RoundingDiv impls, recip", L), ("div_mod_knuth/div_mod_small", "src/i256/u256.rs")],
 ["FixedPoint::rdiv(FixedPoint)", "int.rdiv(FixedPoint)", "FixedPoint::recip"])
prop("C05", "Rounding division by an integer, and of integers, is correctly rounded",
 "For every fixed-point or primitive signed integer (i8 to i128) dividend, every integer divisor and every rounding mode, `rdiv` returns the exact quotient rounded to the dividend's step (Floor down, Ceil up, Nearest closest with ties away from zero). A zero divisor gives DivisionByZero, an unrepresentable quotient (MIN / -1) gives Overflow, and it never panics.",
 ["inputs"], f"all operand pairs x 3 modes; {LAY}; primitive i8..i128",
 "Tests use small divisors; MIN / -1, |divisor| > MAX/2 and exact ties with odd/even huge divisors are unsampled.",
 [L, O], [("RoundingDiv for ints", O), ("RoundingDiv<$layout> for FixedPoint", L)], ["FixedPoint::rdiv(int)", "i8..i128::rdiv"])
prop("C06", "Rounding square root is correctly rounded",
 "For every non-negative fixed-point value x and every rounding mode, `rsqrt` returns the square root of x rounded to the type's precision: Floor the largest step whose square is not above x, Ceil the smallest whose square is not below x, Nearest whichever is closer to the root. Every negative value gives the DomainViolation error. It always terminates and never panics, both with and without the standard library.",
 ["inputs", "configurations"], f"all values x 3 modes; {LAY}; std and no_std",
 "Tests take a few dozen roots on two types; perfect squares +-1 at each magnitude and floating-point first guesses near 2^53..2^64 are unsampled.",
 [L, "src/ops/sqrt.rs", "src/i256/mod.rs"], [("rsqrt", L), ("impl_sqrt!", "src/ops/sqrt.rs")], ["FixedPoint::rsqrt"])
prop("C07", "Half sum is the rounded mean and never overflows",
 "`half_sum(a, b, mode)` is within one half step of the exact mean (a+b)/2 of any two values of the type: it is exact when the mean is representable, otherwise it is the representable neighbour below for Floor, above for Ceil, and either neighbour for Nearest. It never overflows or panics, whatever the operands, and is symmetric in its operands.",
 ["inputs"], f"all operand pairs x 3 modes; {LAY}",
 "Tests have about a dozen pairs on two types; the overflow-avoiding sign split needs MIN/MAX/odd-difference pairs of each sign combination.",
 [L], [("half_sum", L)], ["FixedPoint::half_sum"])
prop("C08", "integral/floor/ceil/round give the correctly rounded integer",
 "For every fixed-point value and mode, `integral` returns the value rounded to an integer (Floor down, Ceil up, Nearest closest with ties away from zero) and never panics. `floor`, `ceil` and `round` return that same integer as a fixed-point number whenever it is representable in the type, and never return any other value.",
 ["inputs"], f"all values; {LAY}",
 "Tests sample a few values on two types; MIN, the smallest fractions, exact halves at every precision and P = 0 are unsampled.",
 [L], [("integral, floor, ceil, round", L)], ["FixedPoint::{integral,floor,ceil,round}"])
prop("C09", "Coarse rounding: round_towards_zero_by and next_power_of_ten",
 "`round_towards_zero_by(x, p)` is the multiple of p nearest to x that is not farther from zero than x (x itself when p is zero), for any sign of x and p, and never panics. `next_power_of_ten(x)` is, for positive x, the smallest power of ten representable in the type that is not below x, and for negative x the negation of that of -x; it is the smallest positive step for zero, and the Overflow error exactly when no such representable number exists.",
 ["inputs"], f"all values; {LAY}",
 "Tests sample a few values on two types; every table row (leading-zero count) and its two neighbours of each power of ten must be right for each layout.",
 [L, "src/power_table.rs"], [("round_towards_zero_by, next_power_of_ten", L), ("leading-zero tables", "src/power_table.rs")],
 ["FixedPoint::round_towards_zero_by", "FixedPoint::next_power_of_ten"])
prop("C10", "Decimal construction and decomposition are exact and inverse",
 "`from_decimal(m, e)` for an exponent from -PRECISION to 10 returns exactly m*10^e when that is representable and an error otherwise, and an error for any exponent outside that range. `to_decimal(max)` for max >= -PRECISION returns (m, e) with m*10^e exactly equal to the number, e between -PRECISION and max, and m not divisible by ten unless e = max or the number is zero (then (0, min(0, max))); feeding the pair back to `from_decimal` (with e <= 10) gives the original number. Neither panics on those inputs nor returns a wrong number on any input.",
 ["inputs"], f"all mantissas, all i32 exponents, all values and max exponents; {LAY}",
 "Tests sample a few exponents for two types; the overflow boundary of 10^(e+P) and of the product differs for each (layout, P, e).",
 [L], [("from_decimal, to_decimal", L)], ["FixedPoint::from_decimal", "FixedPoint::to_decimal"])
prop("C11", "Conversion from any primitive integer is exact or an error",
 "Converting any value of i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize or usize into a fixed-point type with `try_from` gives exactly that integer when it is within MIN..MAX of the type, and an error otherwise. It never panics or wraps.",
 ["inputs"], f"all values of the 12 integer types; {LAY}",
 "Tests convert a few small integers into two types; the boundary differs for each of 12 x 73 type pairs.",
 [L], [("TryFrom<int> impls", L)], ["FixedPoint::try_from(int)"])
prop("C12", "Display and Debug print the canonical exact decimal and round-trip",
 "For every value of every type, Display and Debug print the same canonical exact decimal: an optional '-', the integer part without extra leading zeros, '.', then the shortest non-empty fraction that denotes the value exactly ('0' if it is an integer). Parsing this text with either parser (rounding or exact) gives back the identical value. Width, precision and flags of the format never change the denoted number, a writer's error is returned, and formatting never panics.",
 ["inputs"], f"all values; {LAY}",
 "A property test covers random i128/18 only, so it never draws short fractions, MIN/MAX or other precisions; buffers and powers differ per type.",
 [S, L], [("Stringify impl, StrBuf", S), ("fmt::Display/Debug", L)], ["format!(\"{}\", x)", "format!(\"{:?}\", x)"])
prop("C13", "Exact parsing accepts a decimal only with its exact value",
 "`from_str_exact` returns a number only if the text is an optionally signed decimal (surrounding whitespace allowed; digits before an optional '.', and digits after it) and then the number equals the text's value exactly; every such text with at most PRECISION fraction digits and a value within MIN..MAX is accepted. Text that denotes an unrepresentable value (too precise or out of range) or is malformed (empty, stray characters, exponents, missing digits, non-ASCII digits) is an error. It never panics on any string.",
 ["inputs"], f"all UTF-8 strings; {LAY}",
 "Tests list about 30 strings for two types; the boundary strings differ for each type and the malformed space is unbounded.",
 [S], [("parse_str::<true>", S)], ["FixedPoint::from_str_exact"])
prop("C14", "FromStr parsing rounds to nearest and rejects malformed text",
 "`str::parse` accepts exactly the optionally signed decimals (surrounding whitespace allowed; digits before an optional '.', and digits after it), with any number of fraction digits, and returns their value rounded to the nearest representable number, ties away from zero; if the rounded value is outside MIN..MAX it is an error. Malformed text (empty, stray characters, exponents, missing digits, non-ASCII digits) is always an error, and it never panics on any string. Whenever the exact parser accepts a text, this parser returns the same number.",
 ["inputs"], f"all UTF-8 strings; {LAY}",
 "Tests list about 30 strings for two types; ties, carries into the integer part and MIN/MAX boundaries differ for each type.",
 [S], [("parse_str::<false>", S)], ["str::parse::<FixedPoint>"])
prop("C15", "Conversion from f64 is accurate, symmetric and range checked",
 "Converting a finite f64 gives a number whose magnitude exceeds that of the float by at most 5/9 of EPSILON and falls short of it by at most 4/9 of EPSILON, plus in both cases a relative error of at most 1.5e-15; a float that is the closest double to a number of less than 10^15 steps of the type (n*10^-PRECISION) converts to exactly that number, an in-range integer float below 2^53 converts exactly, and negating the float negates the result. NaN, infinities and floats outside MIN..MAX by more than that tolerance are errors; floats inside the range by more than that tolerance are not. It never panics.",
 ["inputs"], f"all 2^64 f64 bit patterns; {LAY}",
 "Tests list about a hundred floats for two types; the power-of-5/10 tables have one row per exponent and there are 2046 binary exponents.",
 [F, "src/power_table.rs"], [("TryFrom<f64>", F), ("NEXT_EXPONENT_10, MAX_EXPONENT_5, POWERS_OF_5, POWERS_OF_10", "src/power_table.rs")],
 ["FixedPoint::try_from(f64)"])
prop("C16", "Conversion to f64 is accurate, monotone and round-trips",
 "Converting any fixed-point number to f64 gives a finite float with relative error at most 2^-51, is exactly antisymmetric (negating the number negates the float) and is monotone (a <= b implies f64(a) <= f64(b)). Integers below 2^53 convert exactly, and a number of less than 10^15 steps (n*10^-PRECISION) comes back identical when that float is converted to the fixed-point type again.",
 ["inputs"], f"all values; {LAY}",
 "Tests convert a few dozen numbers of two types.", [L], [("From<FixedPoint> for f64", L)], ["f64::from(FixedPoint)"])
prop("C17", "Default serde: decimal string in text formats, representation in binary ones",
 "With default serde implementations a number is written as its canonical decimal string in human-readable formats and as its raw integer representation in binary ones, and reading back yields the identical number. Human-readable input may be a string (parsed as FromStr does), an integer of any width (converted exactly) or a float (converted as TryFrom<f64> does), also from readers that only provide transient strings, and from XML element text and attributes when that feature is enabled; anything else, or a value that does not fit, is an error. Deserialization never panics.",
 ["inputs"], f"all values and documents (JSON text/value/reader, bincode, CBOR, XML, serde value deserializers); {LAY}",
 "Tests check a few JSON and XML documents for two types; other formats, number kinds, 128-bit integers and boundaries are untested.",
 [D], [("Serialize/Deserialize impls, FixedPointVisitor", D)], ["serde::Serialize", "serde::Deserialize"])
prop("C18", "serde `with` modules round-trip in every format",
 "Fields (also wrappers around a fixed-point number) annotated with `serde::repr`, `serde::str`, `serde::float` or their `_option` variants are written as the raw integer, the canonical decimal string or the f64 value respectively (`null`/none for None) whatever the format, and reading back yields the identical value for repr and str, and for float whenever the number is less than 10^15 steps of the type (n*10^-PRECISION). This holds for borrowed and transient inputs, and wrong types or values that do not fit are errors, never panics.",
 ["inputs"], f"all values, Some/None, JSON text/value/reader, bincode, CBOR; {LAY}",
 "Tests serialize a few values through JSON text only.", [D], [("modules repr, repr_option, str, str_option, float, float_option", D)],
 ["#[serde(with = \"fixnum::serde::...\")]"])
prop("C19", "SCALE codec encodes the two's complement representation and round-trips",
 "With the `parity` feature every number encodes as its raw representation in fixed-width little-endian two's complement, and its compact form as the compact encoding of that same bit pattern read as an unsigned integer. Decoding returns the identical number, consumes exactly the encoded bytes and fails cleanly (error, no panic) on every truncated or malformed input.",
 ["inputs"], f"all values, all byte strings; {LAY}",
 "No test exercises the codec at all.", ["src/parity.rs"], [("impl_codec!", "src/parity.rs")], ["Encode/Decode", "Compact<FixedPoint>"])
prop("C20", "Compile-time literals denote exactly their decimal or do not compile",
 "`fixnum_const!(literal, P)` and `fixnum!(literal, P)` used for a type of precision P produce exactly the value that the exact parser gives for the literal's text, for integer and decimal literals of either sign, including MIN and MAX and, for `fixnum!`, wrapper types that implement From. A constant whose literal has more than P fraction digits, is out of the type's range or is not a plain decimal fails to compile instead of yielding another value.",
 ["programs"], f"all programs with such literals; {LAY}; with and without the i128 feature",
 "Tests compile three good literals and one bad one.", [M, "src/const_fn.rs"], [("fixnum_const!, fixnum!", M), ("parse_fixed, pow10", "src/const_fn.rs")],
 ["fixnum_const!", "fixnum!"])
prop("C21", "Wrapper operations from impl_op! equal the operation on the wrapped values",
 "An operation declared for wrapper types with `impl_op!` (checked and saturating add and sub, checked mul, rounding mul and div) returns exactly what the operation gives on the wrapped fixed-point numbers and integers, wrapped in the declared result type, with narrower integer operands widened without changing their value. Errors (Overflow, DivisionByZero) are the same as those of the underlying operation; an integer dividend that does not fit the result's fixed-point type is Overflow.",
 ["inputs"], "all operand pairs x modes x a matrix of wrapper declarations over i8..i128 operands and fixed-point layouts",
 "Tests have one example of wrappers with a few values.", [M], [("impl_op!, Operand promotion", M)], ["impl_op!"])
prop("C22", "All feature and build configurations compute the same results",
 "The library builds with every set of features that has a layout, with or without the standard library. The result of every operation, conversion, parse, format, compile-time literal, serde and SCALE encoding and error kind on a given layout and precision is the same whichever features are enabled together, with or without the standard library, and in debug and release builds. No input that succeeds in one configuration panics, fails or differs in another.",
 ["configurations", "inputs"], "feature sets (layouts, serde, schemars, parity, quick-xml) x std/no_std x debug/release x all inputs of the shared layouts",
 "The test-suite runs four feature sets on the same hand-picked samples, always in debug builds, and never compares them.",
 [L, S, "src/ops/sqrt.rs", "src/const_fn.rs"], [("sqrt guess", "src/ops/sqrt.rs"), ("MAX_LEN", S), ("Int alias", "src/const_fn.rs"), ("unchecked arithmetic", L)],
 ["whole public API"])
prop("C23", "No safe call causes undefined behaviour or an internal arithmetic overflow",
 "No sequence of safe public calls, whatever the values, strings, floats or bytes passed, causes undefined behaviour: no out-of-bounds or uninitialised access, invalid reference, or invalid UTF-8 string. No such call trips an arithmetic-overflow or debug check inside the library; the only panics are the documented one of `to_decimal` and those of `floor`/`ceil`/`round` when the integer does not fit the type.",
 ["inputs", "histories"], f"all public functions x all inputs; {LAY}",
 "Tests run without Miri or sanitizers and sample few values per function.", [S, "src/i256/u256.rs", "src/parity.rs"],
 [("StrBuf unchecked writes", S), ("raw pointer loops and transmute", "src/i256/u256.rs"), ("encode_as cast", "src/parity.rs")], ["whole public API under Miri / overflow checks"])
prop("C24", "Ordering, equality, hashing and constants agree with the numeric value",
 "For all values of one type, comparison (==, <, cmp, max, min, sorting) agrees with the order of the denoted rational numbers, equal numbers hash equally, and Default and ZERO are the number 0. ONE is exactly 1 (and is neutral for rounding multiplication and division), EPSILON is 10^-PRECISION, MIN and MAX are the extreme representable numbers -2^(bits-1)*10^-PRECISION and (2^(bits-1)-1)*10^-PRECISION, and PRECISION is the declared number of digits. Raw-bits construction and access are mutually inverse, and a value has the same size and memory representation as its raw integer.",
 ["inputs"], f"all value pairs; {LAY}",
 "Tests do not check ordering, hashing or the constants for types other than two.", [L, O, "src/const_fn.rs"],
 [("derives, from_bits/as_bits/into_bits, COEF", L), ("pow10", "src/const_fn.rs")], ["PartialOrd/Ord/Eq/Hash", "Zero/One/Bounded", "from_bits/as_bits/into_bits"])
prop("C25", "Histories of mixed operations track exact rational arithmetic",
 "Take any history of operations (checked, saturating and rounding arithmetic, roots, rounding, conversions through text, decimals, integers and floats) applied to a pool of values of one type, where failed operations leave the pool unchanged. After every step each value equals that of a model which does the same history in exact integer arithmetic, each failure has the error kind of the model, and no step panics or affects another value.",
 ["histories"], f"all operation sequences; {LAY}",
 "Tests never chain operations, so values reachable only through intermediate results (rounded, saturated, parsed back) are never fed to the next operation.",
 [L, O, S, F], [("all operations", L)], ["whole public API"])
prop("C26", "Every serialized value conforms to the published JSON schema",
 "With the `schemars` feature the JSON schema of every fixed-point type is an inlined string schema, and the JSON produced for every value (also inside structs, options and arrays) is valid under that schema and reads back as the same value. The type's schema is the same for every layout and precision.",
 ["inputs"], f"all values; {LAY}", "No test exercises the schema.", ["src/schemars.rs", D], [("JsonSchema impl", "src/schemars.rs")], ["schemars::schema_for!", "serde_json::to_value"])
prop("C27", "Rounding modes bracket, mirror and order the results",
 "For every rounding operation (multiplication, division of and by numbers and integers, reciprocal, square root, half sum, integral part) the Floor result is never above the Ceil result, they are equal or neighbours, and Nearest is one of them; a mode never fails alone, except with Overflow where the other bound is MAX or MIN. Negating operands negates the result with Floor and Ceil exchanged (half sum Nearest excepted), products, sums and half sums do not depend on the operand order, and every operation is monotone in its first operand. What is exact is undone by its inverse: a+b-b = a, a*k/k = a, (a*b)/b = a when the product needed no rounding, and a quotient or root rounded down (up) multiplied back is never above (below) the original.",
 ["inputs"], f"all pairs and triples of operands x 3 modes; {LAY}; primitive i8..i128 for rdiv",
 "Tests state single results; no test relates results of several modes, signs or neighbouring operands to each other.",
 [L, O, "src/ops/sqrt.rs"], [("rounding decisions add_signed_one / mode as i32 == sign", L), ("impl_for_ints! rdiv", O), ("fixpoint", "src/ops/sqrt.rs")],
 ["rmul", "rdiv", "recip", "rsqrt", "half_sum", "integral", "cadd", "csub", "cmul"])
prop("C28", "Types that represent the same numbers agree with one another",
 "Take operands that are representable in two fixed-point types. If the types have the same precision, every operation (checked, saturating, rounding, text, decimal and integer conversion, comparison) gives the same number in both; where only one of them can hold the result the other reports Overflow (or a conversion error, or clamps when saturating). If they have different precisions the same holds for everything that needs no rounding: comparison, sums, integer products, negation, integral/floor/ceil/round, coarse rounding, the printed text, exact parsing, decimal and integer conversion, and products and quotients that are exact in the coarser type; inexact ones lie between the coarser type's Floor and Ceil.",
 ["inputs"], f"all operands common to two types x all pairs of types; {LAY}",
 "Each test fixes one or two types and never compares a computation across layouts (which use different code: 64, 128 and 256-bit promotion) or precisions.",
 [L, S, "src/i256/mod.rs"], [("impl_fixed_point! per layout, promoted_to", L), ("I256", "src/i256/mod.rs")], ["whole public API of two FixedPoint types"])
prop("C29", "Errors are consistent, comparable descriptions of the failure",
 "Every ArithmeticError describes its kind ('overflow', 'division by zero' or 'domain violation'), every ConvertError has a non-empty description, and Display prints exactly what as_str returns. Two errors of one kind of type are equal exactly when they say the same, a clone equals its original, and the same failing call always gives an equal error. With the standard library both are std errors without a source.",
 ["inputs"], f"all failing calls; {LAY}",
 "Tests compare errors of a few calls and never their text, display or equality in general.",
 ["src/errors.rs", L, S], [("ArithmeticError, ConvertError", "src/errors.rs")], ["ArithmeticError", "ConvertError"])
prop("C30", "Numbers of different types never mix, and nothing rounds implicitly",
 "An operation, comparison, assignment or conversion between fixed-point numbers compiles exactly if both have the same layout and precision; integers take part only in integer multiplication and rounding division (in either order) and raw-bits, decimal and integral access, and only with the layout's own type. Conversions are only those documented (TryFrom<integer>, TryFrom<f64>, text, decimals, into f64). There are no arithmetic operators and no multiplication of two fixed-point numbers without a rounding mode. Wrapper types have exactly the operations that impl_op! declared for them, with the declared operand order and result type, and a declaration compiles only if the wrapped contents go together (the same fixed-point type, integers no wider than the result's).",
 ["programs"], "all expressions over pairs of fixed-point types, integers and wrappers; with and without i128",
 "Five compile-fail samples exist for literals only; nothing checks that mixing types is rejected.",
 [L, O, M], [("trait impls per layout", L), ("impl_for_ints!", O), ("impl_op!, Operand", M)], ["type checking of code that uses the library"])
prop("C31", "Results and encodings are the same on 32-bit and big-endian machines",
 "What a call returns depends on its operands alone, not on the machine. On a 32-bit target and on a big-endian target every arithmetic operation, conversion (integers, f64, decimals), parse and printed text, and every JSON, SCALE (plain and compact) and bincode encoding and decoding gives the same number, text, bytes, error kind or documented panic as on 64-bit little-endian x86, so that data written on one machine is read as the same number on another. Only isize and usize values that the target does not have, and what a Hasher sees, are excepted.",
 ["configurations", "inputs"], f"all calls and operands; x86-64 against i686 (compiled) and s390x, powerpc (interpreted); {LAY}",
 "Tests run on one machine only. Word-sized intermediate values and native byte order behave on it in one way.",
 [L, S, "src/i256/u256.rs", "src/parity.rs", D], [("u256 words, as_usize", "src/i256/u256.rs"), ("encode_as cast", "src/parity.rs"), ("index and length casts", S)],
 ["whole public API", "Encode, Decode, Serialize, Deserialize"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
