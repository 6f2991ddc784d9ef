#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
CFG = ("every posit format with 4 to 64 total bits held in any signed integer at least that wide, any exponent size "
       "the format admits, a fraction type at least as wide as the posit, and each of the three special-value conventions")

def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TEST2 = ("The Catch tests instantiate two formats (28 bits/es 5 and 32 bits/es 3, both NaN-only) with a few dozen literal values; "
         "no other width, exponent size, holder or special-value convention and almost no boundary value is ever executed.")

p("P01", "Every bit pattern decodes to its defined value and re-encodes to itself",
  "For every posit format, each bit pattern decodes (into regime/exponent/fraction fields, into sign/exponent/significand, and in the diagnostic breakdown) to exactly the number the posit definition gives it (sign, run-length regime, exponent bits, fraction with hidden one). "
  "Encoding the decoded form again, from either decoded representation, returns the identical pattern, and zero, NaN and infinity patterns are classified as such and nothing else is.",
  ["inputs", "configurations"], "All 2^N bit patterns of " + CFG + ".", TEST2,
  ["include/posit.h", "include/bithippop.hpp"],
  [("field decode", "include/posit.h: unpack_low, decode_posit_rs, join_reg_exp"), ("field encode", "include/posit.h: pack_low, split_reg_exp"),
   ("full decode/encode", "include/posit.h: unpack_posit, pack_posit, unpacked_low2full, unpacked_full2low"), ("diagnostics", "include/posit.h: analyze")])
p("P02", "Converting a native number to a posit truncates toward zero and saturates",
  "Converting any finite float, double or int to a posit yields the posit of the same sign that is largest in magnitude without exceeding the input, except that non-zero inputs below the smallest positive posit become that smallest posit and inputs above the largest become the largest; only zero becomes zero. "
  "NaN and infinities become the format's NaN/infinity (or the one special it has), and numbers a posit can hold convert without any change.",
  ["inputs", "configurations"], "All 2^32 floats, 2^64 doubles and 2^32 ints, including subnormals and extreme exponents, into " + CFG + ".", TEST2,
  ["include/posit.h", "include/unpacked.h", "include/floattraits.hpp"],
  [("native decode", "include/unpacked.h: unpack_xfloati, unpack_xfixed"), ("exponent saturation", "include/posit.h: unpacked_full2low (clamp), minexponent/maxexponent"), ("bit assembly", "include/posit.h: pack_low")])
p("P03", "Converting a posit to a native number is exact, truncated or saturated",
  "Converting a posit to float, double or half precision gives the exact value whenever that type can represent it, otherwise the value truncated toward zero (subnormals included), and the largest finite number of that sign on overflow. "
  "Conversion to int drops the fractional part and saturates at the int range, NaN and infinities map to native NaN and infinities, and posit to double to posit is the identity whenever the double is exact.",
  ["inputs", "configurations"], "All patterns of " + CFG + ", to float, double, half and int.", TEST2 + " The existing int conversion test case even fails at this commit.",
  ["include/posit.h", "include/unpacked.h", "include/floattraits.hpp"],
  [("native float encode", "include/unpacked.h: pack_xfloati, fraction_bit_extract"), ("native int encode", "include/unpacked.h: pack_xfixed"), ("conversion operators", "include/posit.h: operator float/double/int, as_float_bin")])
p("P04", "Posit comparison agrees with the numeric order of the values",
  "For any two posits of one format, the six comparison operators and min/max give the answer the real numbers they denote give, with signed infinities at the ends. "
  "A NaN compares false with everything under ==, <, <=, >, >= and true under !=.",
  ["inputs", "configurations"], "All pairs of patterns of " + CFG + ".", TEST2,
  ["include/posit.h"], [("comparison", "include/posit.h: friend operator == != < <= > >="), ("min/max", "include/posit.h: std::min, std::max")])
p("P05", "Negation and absolute value are exact and keep the special values",
  "Negating a posit gives the posit of exactly opposite value and negating twice gives the original pattern; the absolute value is the non-negative one of the two. "
  "Zero and NaN (and the single unsigned infinity) are their own negation, signed infinities swap, and the result is always a valid pattern of the format that compares and prints as such.",
  ["inputs", "configurations"], "All patterns of " + CFG + ".", TEST2,
  ["include/posit.h", "include/bithippop.hpp"], [("negation", "include/posit.h: neg, operator-, ::neg"), ("absolute value", "include/posit.h: abs, std::abs; include/bithippop.hpp: pcabs")])
p("P06", "Addition and subtraction are faithful, and truncating for like signs",
  "The sum or difference of two finite posits is one of the two posits that bracket the exact result (the exact result itself when it is a posit, saturating at the smallest and largest magnitude and never turning a non-zero result into zero or a zero result into non-zero). "
  "When both addends have the same sign the result is always the bracket nearer zero; addition commutes, x-x is zero, x+0 is x, and x-y equals x+(-y) and -(y-x).",
  ["inputs", "configurations"], "All pairs of finite patterns of " + CFG + ".", TEST2,
  ["include/posit.h", "include/unpacked.h"], [("aligned add", "include/unpacked.h: operator+, normalized"), ("posit add/sub", "include/posit.h: operator+, operator-, operator+=")])
p("P07", "Multiplication is the exact product truncated toward zero",
  "The product of two finite posits is the exact product truncated toward zero to a posit, saturated at the smallest and largest magnitude, never zero unless a factor is zero. "
  "Multiplication commutes, multiplying by one changes nothing, and multiplying by minus one negates.",
  ["inputs", "configurations"], "All pairs of finite patterns of " + CFG + ".", TEST2,
  ["include/posit.h", "include/unpacked.h", "include/typehelpers.hpp"], [("significand product", "include/unpacked.h: operator*; include/typehelpers.hpp: extramul"), ("posit product", "include/posit.h: operator*, operator*=")])
p("P08", "Division and reciprocal are the exact quotient truncated toward zero",
  "The quotient of a finite posit by a non-zero finite posit is the exact quotient truncated toward zero to a posit, saturated at the smallest and largest magnitude. "
  "The reciprocal equals one divided by the value for every non-zero finite posit, dividing by one changes nothing and x/x is one.",
  ["inputs", "configurations"], "All pairs of finite patterns of " + CFG + ".", TEST2,
  ["include/posit.h", "include/unpacked.h", "include/typehelpers.hpp"], [("significand quotient", "include/unpacked.h: operator/, inv; include/typehelpers.hpp: extradiv"), ("posit quotient/reciprocal", "include/posit.h: operator/, inv, operator~, operator/=")])
p("P09", "NaN, infinity and zero follow one arithmetic in all three conventions",
  "An operation with a NaN operand, infinity minus infinity, zero times infinity, zero over zero and infinity over infinity give NaN; a non-zero finite number over zero gives infinity of the number's sign and the reciprocal of zero positive infinity; a finite number over infinity and the reciprocal of infinity give zero; infinity combined with a finite number by addition, with a non-zero one by multiplication, or divided by a finite number stays infinity with the product sign. "
  "A format without infinity yields its NaN where infinity is due, one without NaN yields its infinity where NaN is due, and finite operands otherwise never produce a special value.",
  ["inputs", "configurations"], "All operand pairs containing a special or zero, with every finite partner, under each of the three special-value conventions, for + - * / reciprocal, fused multiply-add and compound assignment.", "The tests only instantiate the NaN-only convention and check a handful of special combinations.",
  ["include/posit.h", "include/unpacked.h"], [("special dispatch", "include/unpacked.h: operator+ * /, inv, UnpackedDualSel"), ("special encode", "include/posit.h: pack_low switch, inf/nan/pinf/ninf")])
p("P10", "Halving and doubling equal division and multiplication by two",
  "Halving or doubling a finite posit gives exactly the value over two or times two, truncated toward zero to a posit and saturated at the smallest and largest magnitude; zero and special values are unchanged.",
  ["inputs", "configurations"], "All patterns of " + CFG + ".", "The tests call them on a few small literals; the regime carry at the ends of the range is never reached.",
  ["include/posit.h"], [("field-level scaling", "include/posit.h: half, twice, pack_low")])
p("P11", "Stepping visits every posit in order; constants have their stated values",
  "Stepping up (down) from any finite posit other than the largest (lowest) gives the next greater (smaller) posit, the two steps undo each other, and stepping never leaves the finite range: the largest, the lowest and special values stay put. "
  "The constants zero, one, minus one, two, one half, smallest positive, largest, lowest, epsilon and the numeric-limits entries denote exactly those values in every format.",
  ["inputs", "configurations"], "All patterns of " + CFG + ".", TEST2,
  ["include/posit.h"], [("neighbours", "include/posit.h: next, prev"), ("constants", "include/posit.h: PositTrait constants, Posit::one/two/onehalf/..., std::numeric_limits<Posit>")])
p("P12", "Fused multiply-add and dot product keep the wide intermediate precision",
  "Fused multiply-add and the dot product equal the exact result rounded once, up to an error no larger than what a wide accumulator with the precision of the fraction type introduces: whenever every product and partial sum fits that precision the result is the exact sum truncated to a posit, and otherwise it lies between the truncations of the exact sum shifted by the accumulated bound. "
  "A dot product of length zero is zero, of length one is the product.",
  ["inputs", "histories", "configurations"], "All operand triples and all vector pairs of any length, for " + CFG + ".", "One smoke program prints a single dot product.",
  ["include/posit.h", "include/unpacked.h"], [("fused ops", "include/posit.h: fma, dot"), ("wide accumulator", "include/unpacked.h: operator+, operator*, operator+=")])
p("P13", "Any sequence of operations keeps a posit valid and consistent",
  "After any sequence of constructions, conversions, arithmetic, compound assignments, scaling and stepping, every value is a valid pattern of its format (sign-extended in its holder) and depends only on the operand values: compound assignment equals the plain operation, operands are not modified, and repeating the sequence gives the same bits.",
  ["histories", "configurations"], "All finite operation sequences over a pool of variables, for " + CFG + ".", "Tests check single operations only, never sequences feeding results back as operands.",
  ["include/posit.h", "include/unpacked.h"], [("compound assignment", "include/posit.h: operator+= *= /="), ("holder representation", "include/posit.h: DeepInit results of every operation")])
p("P14", "Unit-range and activation shortcuts equal the functions they approximate",
  "For formats with no exponent bits, the unit-range test accepts exactly the posits in [0,1], the one-minus shortcut returns exactly 1-x on that range, and x(1-x) is the truncated product of the two. "
  "The sigmoid shortcut is (2+x)/4 truncated on [-1,1], within an eighth of 1/(4|x|) below, complements to one up to one step for opposite arguments, and so stays in [0,1] within 0.05 plus one step of the logistic function. The softplus shortcut is 1+x/2 truncated on [-1,0], 1+x on [0,1], 2x (saturated) above and within an eighth of 1/(2|x|) below -1. Both never decrease.",
  ["inputs", "configurations"], "All patterns of formats with 0 exponent bits (the domain these bit tricks are valid for), any width and holder.", "No test calls them.",
  ["include/posit.h"], [("shortcuts", "include/posit.h: isUnitRange, urOneMinus, urDeltaPs, pseudosigmoid, pseudosoftplus")])
p("P15", "The wide software float computes within its precision and is self-consistent",
  "Adding, subtracting, multiplying, dividing and inverting unpacked numbers gives the exact result to within the precision of the fraction type (results of same-sign sums, products and quotients never exceed it in magnitude when the operands fit), is exact when the result fits, and follows IEEE rules for NaN, infinity and zero. "
  "Equality and inequality are complementary except with NaN, negation flips only the sign, and results never depend on how far apart the operands' exponents are.",
  ["inputs", "configurations"], "All pairs of unpacked numbers (any exponent, any fraction bits, all kinds) for 8, 16, 32 and 64-bit fraction types.", "The tests use two fraction types and a few dozen literals whose exponents are close together.",
  ["include/unpacked.h", "include/typehelpers.hpp"], [("arithmetic", "include/unpacked.h: operator+ - * /, inv, normalized"), ("comparison/negation", "include/unpacked.h: operator== != -")])
p("P16", "Any IEEE-style format converts to any other by exact or truncated value",
  "Decoding a number of any IEEE-style layout (8-bit 5/2, half, bfloat16 with and without subnormals, single, double) gives exactly its value, and re-encoding it in the same layout gives the same bits. "
  "Encoding into another layout gives the exact value if representable, else the value truncated toward zero through the subnormal range down to zero, and the largest finite value on overflow; NaN stays NaN and infinity keeps its sign.",
  ["inputs", "configurations"], "All 2^8, 2^16, 2^32, 2^64 bit patterns of each layout, all ordered pairs of layouts, fraction types of 8 to 64 bits.", "Only round trips of a few ordinary floats and doubles are tested.",
  ["include/unpacked.h", "include/floattraits.hpp"], [("decode", "include/unpacked.h: unpack_xfloati"), ("encode", "include/unpacked.h: pack_xfloati, fraction_bit_extract, convertfloats"), ("layouts", "include/floattraits.hpp: any_floattrait, half_trait, single_trait, double_trait")])
p("P17", "Fixed-point and integer conversions are exact, truncated or saturated",
  "Decoding any fixed-point or integer value gives exactly its value (to the precision of the fraction type), and encoding it back gives the same bits. "
  "Encoding any number as fixed point truncates toward zero to the grid and saturates at the type's lowest and largest value.",
  ["inputs", "configurations"], "All values of 8, 16, 32 and 64-bit fixed-point types with any number of fraction bits, and all unpacked numbers.", "One smoke program prints a few values.",
  ["include/unpacked.h", "include/fixedtraits.hpp"], [("decode", "include/unpacked.h: unpack_xfixed"), ("encode", "include/unpacked.h: pack_xfixed")])
p("P18", "Emulated small floats compute the truncated native result",
  "Arithmetic, fused multiply-add, scaling and reciprocal on emulated floats of any layout give the native float result of the decoded operands, truncated into the layout with subnormals and saturation at the largest finite value. "
  "Negation and absolute value change only the sign bit, comparisons agree with the decoded values, constants have their stated values and conversion to native numbers is exact.",
  ["inputs", "configurations"], "All operands (all pairs for 8-bit) of the 8-bit, half, bfloat16-like, single and double emulated layouts.", "One compile test prints a few values; nothing is asserted.",
  ["include/anyfloat.hpp", "include/unpacked.h", "include/floattraits.hpp"], [("operations", "include/anyfloat.hpp: anyfloat_emu operators"), ("rounding", "include/unpacked.h: pack_xfloati")])
p("P19", "Half precision through native floats is correct with and without CPU support",
  "Converting any half-precision pattern to float is exact, and float to half rounds to nearest-even with hardware support and truncates (saturating) without it, on every input including subnormals, infinities and NaN. "
  "Arithmetic equals the native float operation on the converted operands converted back, and negation and absolute value touch only the sign.",
  ["inputs", "configurations"], "All 2^16 halves, all floats, all pairs, with and without F16C.", "A single compile-and-print test of the hardware path; the fallback is never compiled.",
  ["include/float16native32.hpp", "include/unpacked.h"], [("conversion", "include/float16native32.hpp: float16nto32, float32to16n"), ("operations", "include/float16native32.hpp: float16n32")])
p("P20", "The tabulated 8-bit posit agrees with exact 8-bit posit arithmetic",
  "Every operation of the table-driven 8-bit posit (add, subtract, multiply, divide, reciprocal, square, halve, double, exp2, negate, abs, compare, min/max, tests, conversions, constants) gives the truncated exact result in its format, as the generic posit of that format does, for all operands including NaN, zero and the extremes. Comparisons order the patterns: numeric order, with NaN equal to itself and below every number.",
  ["inputs"], "All 256 patterns and all 65536 ordered pairs.", "One smoke program prints a few values.",
  ["include/posit8.hpp", "src/posit8.cpp", "src/posit8_gen.cpp", "include/posit.h"], [("tables", "src/posit8_gen.cpp"), ("class", "include/posit8.hpp, src/posit8.cpp")])
p("P21", "The tabulated 10- and 12-bit posits agree with exact posit arithmetic",
  "Every operation of the 10-bit and 12-bit posit classes (add, subtract, multiply, divide, reciprocal, square, halve, double, exp2, negate, abs, compare, min/max, tests, conversions, constants) gives the truncated exact result in its format (faithful for subtraction and sums of unlike signs), as the generic posit of that format does, for all operands including NaN, zero and the extremes. Comparisons order the patterns: numeric order, with NaN equal to itself and below every number.",
  ["inputs"], "All patterns and all ordered pairs of both formats.", "Smoke programs print a few values.",
  ["include/posit10.hpp", "include/posit12.hpp", "src/posit10.cpp", "src/posit12.cpp", "src/posit10_gen.cpp", "src/posit12_gen.cpp", "include/posit.h"], [("tables", "src/posit10_gen.cpp, src/posit12_gen.cpp"), ("classes", "include/posit10.hpp, include/posit12.hpp, src/posit10.cpp, src/posit12.cpp")])
p("P22", "The float-backed posit agrees with the generic posit",
  "A posit computed with native float or double arithmetic has the same encoding, constants, conversions, negation, stepping and ordering as the generic posit of the same format, and its sums, products, quotients, reciprocals and scaling are the native result truncated to the format, hence the exact truncated result whenever the native operation is exact.",
  ["inputs", "configurations"], "All pairs of patterns of formats whose values the backing type represents exactly, in each special-value convention.", "One compile-and-print test.",
  ["include/positf.h", "include/posit.h"], [("operations", "include/positf.h: PositF")])
p("P23", "The tabulated 8-bit float computes truncated native results",
  "Every operation of the table-driven 8-bit float (construction, add, subtract, multiply, divide, reciprocal, square, halve, double, exp2, negate, abs, min/max, compare, conversion to float) gives the native float result of the decoded operands truncated into the 8-bit layout, including subnormals, saturation and NaN/infinity.",
  ["inputs"], "All 256 patterns, all 65536 pairs, all floats for construction.", "No test exercises it at all.",
  ["include/binary8.hpp", "src/binary8.cpp", "src/binary8_gen.cpp", "include/anyfloat.hpp"], [("tables", "src/binary8_gen.cpp"), ("class", "include/binary8.hpp, src/binary8.cpp")])
p("P24", "Each lane of the 32-lane vector posit equals the scalar 8-bit posit",
  "Every vector operation (arithmetic, negate, reciprocal, square, exp2, halve, double, sign, NaN, infinity and negative-exponent tests, broadcast construction, conversion to floats) acts on each of the 32 lanes independently and gives in each lane what the scalar table-driven 8-bit posit gives. Printing a vector lists the floats of the lanes in order, printing the result of a test lists its bytes in hexadecimal, and the stream keeps its base.",
  ["inputs"], "All vectors of 32 patterns, i.e. all lane positions with all operand pairs.", "Its test program is not part of the build.",
  ["include/simdposit8.hpp", "src/simdposit8.cpp", "src/posit8_gen.cpp"], [("lane lookup", "include/simdposit8.hpp: lookup1, lookup2"), ("class", "include/simdposit8.hpp, src/simdposit8.cpp")])
p("P25", "Results do not depend on compiler, optimisation or CPU features",
  "Every operation gives bit-identical results whether built by gcc or clang, with or without optimisation, with or without the CPU bit-manipulation instructions, as C++11, 14 or 17, or in the hardware-synthesis mode without native floats, and never performs an out-of-range shift, signed overflow or out-of-bounds access on valid operands.",
  ["inputs", "configurations"], "All operations on all operands of all formats, under each build flavour.", "The tests run in one build flavour without sanitizers.",
  ["include/bithippop.hpp", "include/posit.h", "include/unpacked.h", "include/typehelpers.hpp"], [("hardware bit extraction", "include/bithippop.hpp: bitset_getT, bitset_gethwT"), ("shifts", "include/unpacked.h, include/posit.h")])
p("P26", "Constant evaluation at compile time gives the run-time result",
  "Every posit expression that the compiler evaluates at compile time (construction from integers and patterns, arithmetic, comparison, negation, scaling, unpacking) has exactly the bits the same expression has at run time.",
  ["programs", "inputs"], "All constant expressions over posit literals for " + CFG + ".", "The one constexpr test does not even compile at this commit.",
  ["include/posit.h", "include/unpacked.h", "include/typehelpers.hpp", "include/bithippop.hpp"], [("constexpr operations", "include/posit.h, include/unpacked.h (CONSTEXPR14), include/typehelpers.hpp: nextintop")])
p("P27", "The constant float-to-bits conversion returns the IEEE bit pattern",
  "For every float the constant-evaluable float-to-bits function returns the number's IEEE single-precision bit pattern, subnormals and infinities included (any zero gives zero and any NaN gives the quiet NaN).",
  ["inputs"], "All 2^32 floats.", "No test calls it.",
  ["include/floatconst2bits.hpp"], [("scaling loop", "include/floatconst2bits.hpp: float2bits, count_leading_zeroes")])
p("P28", "Posits inside Eigen matrices compute the same as scalar loops",
  "Element-wise sums, differences, scalings, absolute values, casts to and from native numbers, comparisons, reductions, products, dot products and transposes of Eigen matrices of posits, and the arithmetic of matrices of their unpacked form, equal a plain loop of the scalar operations in the same order.",
  ["inputs", "configurations"], "All matrix sizes and all posit entries.", "No test includes the Eigen integration.",
  ["include/positeigen.h", "include/posit.h"], [("traits", "include/positeigen.h: NumTraits<Posit>, cast")])
p("P29", "Deferred products give the fused result or the plain product",
  "In the deferred-product build mode a product used by itself, in any context, has the value of the ordinary product, and a product added to a posit or added to/subtracted from another product equals the fused operation on the same operands (no intermediate truncation to a posit).",
  ["inputs", "configurations"], "All operand tuples for " + CFG + ".", "No test compiles this mode.",
  ["include/posit.h"], [("expression template", "include/posit.h: PositMul")])
p("P30", "Printing a number shows its value and leaves the stream as it was",
  "Writing a posit to a stream in decimal mode prints the float it converts to, in hexadecimal mode its raw bit pattern as a number, and in octal mode its unpacked form. An unpacked number prints its kind, sign, exponent (decimal) and fraction (hexadecimal and binary) whatever the stream's base, a tabulated number its pattern as an unsigned number, a half its float value. The stream's base setting afterwards is the one before.",
  ["inputs", "configurations", "histories"], "All patterns, all stream base settings and sequences of insertions.", "Nothing asserts on printed output.",
  ["include/posit.h", "include/unpacked.h", "include/binary8.hpp", "include/float16native32.hpp", "src/posit8.cpp", "src/posit10.cpp", "src/posit12.cpp"], [("insertion", "include/posit.h: operator<<"), ("unpacked insertion", "include/unpacked.h: operator<<")])
p("P31", "The posit lister prints every posit once, in order, with its true fields",
  "Built for any format, or for a tabulated class, and given any format string (or none: the one chosen when it was built), the posit lister writes one row per posit, every finite posit once in ascending order or every pattern once in unsigned order. Each column is the true signed or unsigned pattern, bits, regime, regime factor, exponent, unpacked form, value or printed form, the optional groups are those of the reciprocal, the double and the half, the binary output has the same numbers as doubles, and the heading states the format's size and its true half, two, minimum and maximum with one title per column.",
  ["inputs", "configurations"], "All format strings, for every format up to 16 bits.", "The tool is not built by the tests.",
  ["src/listposits.cpp", "include/posit.h"], [("rows", "src/listposits.cpp: print1"), ("order and heading", "src/listposits.cpp: listpositsT")])
p("P32", "The bit-field helpers move exactly the named bits",
  "For every 8, 16, 32 or 64-bit word and every field position and size, masking, reading and replacing a field, taking leading or trailing bits, counting leading zeros, aligning bits between word sizes, absolute value and the widening product and division give exactly the defined result and touch no other bit, in the constant, flexible and hardware forms alike.",
  ["inputs", "configurations"], "All words, all field positions and sizes (empty and full ones included), with and without hardware bit extraction.", "One program prints a few fields and asserts nothing.",
  ["include/bithippop.hpp", "include/typehelpers.hpp"], [("fields", "include/bithippop.hpp: bitmask, bitset_get, bitset_part"), ("alignment", "include/bithippop.hpp: cast_msb, cast_right_to_left"), ("wide integers", "include/typehelpers.hpp: nextinttype, nextintop")])
p("P33", "The Python lattice computes the smallest bound that contains every result",
  "In the unum lattice of the Python tool every value converts, exactly and whatever its number type, to the cell that holds it (an exact point or the open interval between neighbours; an infinite one to infinity, a NaN is refused); negation and inversion map each cell to its mirror image; sums, differences, products and quotients of cells are the smallest bound that contains every exact result; complement, negation, inversion, iteration and text of bounds agree with the set of cells they stand for.",
  ["inputs", "configurations"], "All alphabets, all cells, all rationals and floats.", "Nothing tests the script.",
  ["scripts/punum.py"], [("conversion", "scripts/punum.py: Alphabet._searchvalue"), ("cells", "scripts/punum.py: Pnum.slowplus, slowtimes"), ("bounds", "scripts/punum.py: Pbound")])
p("P34", "The MATLAB functions convert and combine arrays element by element",
  "Given an array, the MATLAB functions return one of the same size and complexity and leave their arguments alone. halfprecision and its C twin turn each element into the nearest half (ties away from zero, overflow to infinity, the sign kept, NaN to NaN) and each half into exactly its value, rounded by MATLAB for integer classes; the 8-bit posit functions turn floats, doubles and halves into the posit of the value, posits into exactly their value, and combine posits as the posit arithmetic does. A wrong number of arguments, class, count or operation gives a message and no result.",
  ["inputs", "configurations"], "All arrays of every class, size and complexity; all half and 8-bit posit patterns; all wrong calls.", "Nothing compiles these files.",
  ["matlab/halfprecision/halfprecision.c", "matlab/halfprecision/ieeehalfprecision.c", "matlab/p8binop.cpp", "matlab/p8unop.cpp", "matlab/p8Tofloat.cpp", "src/floatTop8.cpp"], [("half conversions", "matlab/halfprecision/*.c: singles2halfp, doubles2halfp, halfp2singles, halfp2doubles"), ("posit functions", "matlab/p8*.cpp, src/floatTop8.cpp: mexFunction")])
p("P35", "Each lane of the vector wrappers computes what the scalar loop computes",
  "For every vector wrapper of include/simd (8, 16 and 32-bit integers with and without sign, floats and doubles, of 128 and 256 bits, arrays of them and the scalar stand-in): loading, storing, broadcasting, setting from one value per lane, indexed and strided loading, counting up, adding, maximum, comparing less and blending values or their indices by the comparison act on each lane independently and give what a scalar loop gives; a store writes its lanes only; a running maximum with index over any number of rows equals the scalar loop's; printing lists the lanes in order.",
  ["inputs", "histories"], "All lane values (special floats included), all lanes, byte offsets, strides and row sequences.", "No test includes these headers.",
  ["include/simd/asimd_base.h", "include/simd/asimd_8.h", "include/simd/asimd_16.h", "include/simd/asimd_32.h", "include/simd/asimd_f.h", "include/simd/asimd_d.h"], [("wrappers", "include/simd/asimd_*.h: max, cmplt, blend, blendindex, gather, initincrement"), ("arrays and strides", "include/simd/asimd_base.h: simd_x_a, loadstrided, initgather"), ("unsigned comparisons", "include/simd/asimd_base.h: _mm256_cmpgt_epu8 ...")])

p("P36", "Operations depend only on their operands, also when several threads run them",
  "The result of every operation of every number type (generic, float-backed and tabulated posits, the unpacked form, the software and 8-bit floats, the native half, the vectors) is a function of its operands alone: the same call gives the same bits whatever was computed before and whatever other threads compute at the same time. No operation writes memory it shares with another call, and none but the printing functions writes to a stream or changes one.",
  ["inputs", "schedules", "histories"], "All programs of operations, all interleavings of threads running them.", "The tests run each operation once, in one thread.",
  ["include/posit.h", "include/positf.h", "include/unpacked.h", "include/anyfloat.hpp", "include/posit8.hpp", "include/simdposit8.hpp", "src/posit8.cpp", "src/posit10.cpp", "src/posit12.cpp", "src/binary8.cpp", "src/simdposit8.cpp"], [("operations", "include/posit.h, include/unpacked.h, include/positf.h"), ("tables and their users", "include/posit8.hpp, src/posit8.cpp, src/posit10.cpp, src/posit12.cpp, src/binary8.cpp"), ("vector construction", "src/simdposit8.cpp")])

p("P37", "The single-header form works alone and computes what the headers compute",
  "The one header that makeone.sh assembles from the headers compiles with nothing else on the search path, can be included by several files of one program, and gives the bits of the separate headers for every operation of posits, unpacked numbers and emulated floats.",
  ["inputs", "configurations"], "All formats, all operands, several compilers and language versions.", "Nothing runs the script or compiles its output.",
  ["makeone.sh", "include/posit.h", "include/unpacked.h", "include/bithippop.hpp", "include/typehelpers.hpp", "include/floattraits.hpp", "include/fixedtraits.hpp"], [("assembly", "makeone.sh"), ("headers", "include/posit.h, include/unpacked.h")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
