#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INP = "the existing tests evaluate a few dozen hand-picked operands per operation; the statement ranges over all 2^256 (or 2^512) of them"

# id, title, statement, quantifier-over, quantifier-text, why, files, mechanisms
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


prop("C01", "Addition and subtraction are exact, with exact overflow reporting",
     "For all operands, adding or subtracting two 256-bit integers (signed or unsigned, by value, by reference, in place, or with a primitive operand) gives the mathematically exact result whenever it fits the type. When it does not fit, the wrapping and overflowing forms give the result modulo 2^256, the overflowing form sets its flag exactly then, the checked form gives none exactly then, the saturating form gives the bound on the side of the overflow, and the plain operator panics in builds with overflow checks and wraps otherwise. The mixed-sign forms (unsigned plus signed, signed plus or minus unsigned) obey the same rules.",
     ["inputs", "configurations"], "all pairs of 256-bit operands, debug and release builds", INP,
     ["src/intrinsics/native/add.rs", "src/intrinsics/native/sub.rs", "src/macros/ops.rs", "src/int/api.rs", "src/uint/api.rs", "src/intrinsics/signed.rs"],
     [("uaddc/iaddc/add2/add3", "src/intrinsics/native/add.rs"), ("usubc/isubc/sub2/sub3", "src/intrinsics/native/sub.rs"), ("saturating_*, checked_*, overflowing_*", "src/int/api.rs, src/uint/api.rs")])
prop("C02", "Multiplication is exact, with exact overflow reporting",
     "For all operands, multiplying two 256-bit integers gives the mathematically exact product whenever it fits the type. When it does not fit, the wrapping and overflowing forms give it modulo 2^256, the overflowing form sets its flag exactly then, the checked form gives none exactly then, the saturating form gives the bound of the product's sign, and the plain operator panics in builds with overflow checks and wraps otherwise.",
     ["inputs", "configurations"], "all pairs of 256-bit operands, debug and release builds", INP,
     ["src/intrinsics/native/mul.rs", "src/int/api.rs", "src/uint/api.rs", "src/macros/ops.rs"],
     [("umulddi3/mul3/umulc/imulc", "src/intrinsics/native/mul.rs"), ("overflow kinds", "src/int/api.rs, src/uint/api.rs")])
prop("C03", "Truncated division and remainder are exact",
     "For all operands with a non-zero divisor, the quotient is the exact quotient rounded toward zero and the remainder is dividend minus quotient times divisor, so it is smaller in magnitude than the divisor and takes the dividend's sign. Dividing by zero panics (the checked forms give none). The single overflowing case, the smallest signed value divided by minus one, panics for the plain operator in every build and is wrapped, saturated, flagged or refused by the form that says so.",
     ["inputs", "configurations"], "all dividend/divisor pairs, every spelling of division and remainder, debug and release builds", INP,
     ["src/intrinsics/native/divmod.rs", "src/int/api.rs", "src/uint/api.rs", "src/macros/ops.rs"],
     [("udivmod4 and Knuth division", "src/intrinsics/native/divmod.rs"), ("overflow kinds", "src/int/api.rs, src/uint/api.rs")])
prop("C04", "Euclidean division and paired quotient/remainder forms are exact",
     "For all operands with a non-zero divisor, Euclidean division gives the quotient q and remainder r with dividend = q * divisor + r and 0 <= r < |divisor|. The forms returning quotient and remainder together return exactly the pair the separate operations give, with the same overflow and zero-divisor behaviour in each of the checked, saturating, wrapping and overflowing forms.",
     ["inputs", "configurations"], "all dividend/divisor pairs, debug and release builds", INP,
     ["src/int.rs", "src/uint.rs", "src/int/api.rs", "src/uint/api.rs"],
     [("div_rem family", "src/int.rs, src/uint.rs"), ("div_euclid family", "src/int/api.rs, src/uint/api.rs")])
prop("C05", "Shifts are exact for every amount and amount type",
     "For all values and all shift amounts below 256, left shift multiplies by a power of two modulo 2^256, and right shift divides rounding down (so signed right shift keeps the sign). For amounts of 256 or more, or negative amounts, the plain operator panics in builds with overflow checks and otherwise uses the amount modulo 256; the checked form gives none, the wrapping form uses the amount modulo 256 and the overflowing form does so and sets its flag. This holds for every integer type accepted as an amount and for the operator, reference and assignment spellings.",
     ["inputs", "configurations"], "all values, all amounts of all accepted types, debug and release builds", INP,
     ["src/intrinsics/native/shl.rs", "src/intrinsics/native/shr.rs", "src/macros/ops.rs", "src/int/api.rs", "src/uint/api.rs"],
     [("shl2/shl3", "src/intrinsics/native/shl.rs"), ("shr/sar", "src/intrinsics/native/shr.rs"), ("shift operator impls", "src/macros/ops.rs")])
prop("C06", "Rotations, bit counts, byte swap and bit reversal are exact",
     "For all values and every rotation amount, rotating moves every bit by the amount modulo 256 with nothing lost, in every build. The population count, leading/trailing zero and one counts, byte swap and bit reversal describe exactly the 256-bit two's complement pattern of the value.",
     ["inputs", "configurations"], "all values and all 32-bit rotation amounts, debug and release builds", INP,
     ["src/intrinsics/native/rot.rs", "src/intrinsics/native/ctz.rs", "src/int/api.rs", "src/uint/api.rs"],
     [("rol3/ror3", "src/intrinsics/native/rot.rs"), ("ctlz/cttz", "src/intrinsics/native/ctz.rs"), ("swap_bytes, reverse_bits, counts", "src/int/api.rs, src/uint/api.rs")])
prop("C07", "Comparison, equality and hashing follow the numeric value",
     "For all pairs of values, equality and ordering (including maximum, minimum and clamping, and comparison with primitive operands from either side) are those of the mathematical integers. Equal values hash equally, and the zero value and default agree.",
     ["inputs"], "all pairs of values and of value and 128-bit primitive", INP,
     ["src/int/cmp.rs", "src/uint/cmp.rs", "src/macros/cmp.rs", "src/int.rs", "src/uint.rs"],
     [("Ord implementations", "src/int/cmp.rs, src/uint/cmp.rs"), ("primitive comparisons", "src/macros/cmp.rs"), ("derived PartialEq/Hash", "src/int.rs, src/uint.rs")])
prop("C08", "Bitwise operators act on every bit, in every spelling",
     "For all operands, and, or, exclusive or and complement act independently on each of the 256 bits of the two's complement pattern. Every spelling (by value, by reference, in place, with a sign-extended or zero-extended primitive operand on either side) gives the same result.",
     ["inputs"], "all pairs of operands, all operator spellings", INP,
     ["src/macros/ops.rs", "src/int/ops.rs", "src/uint/ops.rs"],
     [("bitwise impls", "src/macros/ops.rs")])
prop("C09", "Negation, absolute value, sign and distance are exact",
     "For all values, negation, absolute value, unsigned absolute value, sign, sign tests and absolute difference give the exact mathematical answer when it fits. The one value that does not fit panics or wraps for the plain form according to the build, and is refused, flagged, wrapped or saturated by the checked, overflowing, wrapping and saturating forms.",
     ["inputs", "configurations"], "all values and pairs, debug and release builds", INP,
     ["src/int/api.rs", "src/uint/api.rs", "src/int/ops.rs"],
     [("abs/neg/signum families", "src/int/api.rs"), ("abs_diff", "src/int/api.rs, src/uint/api.rs")])
prop("C10", "Exponentiation is exact, with exact overflow reporting",
     "For all bases and exponents, raising to a power gives the exact power when it fits; otherwise the wrapping and overflowing forms give it modulo 2^256, the overflowing flag is set exactly then, the checked form gives none exactly then, the saturating form gives the bound of the power's sign, and the plain form panics in builds with overflow checks and wraps otherwise.",
     ["inputs", "configurations"], "all bases and all 32-bit exponents, debug and release builds", INP,
     ["src/int/api.rs", "src/uint/api.rs"], [("pow family", "src/int/api.rs, src/uint/api.rs")])
prop("C11", "Integer conversions keep the value or its low bits",
     "Converting from a primitive integer or boolean and between the two 256-bit types keeps the value whenever the target can hold it; the as-style conversions otherwise keep exactly the low bits, as primitive casts do. The fallible conversions succeed exactly when the value is representable in the target and then return it unchanged.",
     ["inputs"], "all values of every convertible integer type", INP,
     ["src/int/convert.rs", "src/uint/convert.rs", "src/int.rs", "src/uint.rs", "src/error.rs"],
     [("From/TryFrom/As conversions", "src/int/convert.rs, src/uint/convert.rs"), ("error construction", "src/error.rs")])
prop("C12", "Conversions from floating point truncate and saturate",
     "Converting a float to a 256-bit integer rounds toward zero, saturates at the bounds of the target type (including for the infinities) and gives zero for not-a-number, as primitive casts do.",
     ["inputs"], "all 32-bit and 64-bit floating point values", INP,
     ["src/int/convert.rs", "src/uint/convert.rs"], [("float to integer", "src/int/convert.rs, src/uint/convert.rs")])
prop("C13", "Conversions to floating point round to nearest even",
     "Converting a 256-bit integer to a float gives the nearest representable value, ties to even, and infinity when it is out of range, as primitive casts do.",
     ["inputs"], "all 256-bit values, both float widths", INP,
     ["src/int.rs", "src/uint.rs", "src/int/convert.rs", "src/uint/convert.rs"], [("as_f32/as_f64", "src/int.rs, src/uint.rs")])
prop("C14", "Text parsing accepts exactly the numerals and gives their value",
     "Parsing text in a radix from 2 to 36 accepts exactly an optional sign followed by at least one digit of that radix whose value fits the type, and returns that value; the prefixed form selects the radix from the prefix. Everything else is refused with the error kind primitives use, and no text makes parsing panic.",
     ["inputs"], "all byte strings and radices", INP,
     ["src/parse.rs", "src/macros/parse.rs", "src/int/parse.rs", "src/uint/parse.rs", "src/int/api.rs", "src/uint/api.rs"],
     [("from_str_radix/from_str_prefixed", "src/parse.rs")])
prop("C15", "Compile-time literals denote their value",
     "An integer literal in decimal, binary, octal or hexadecimal, with separators, that fits the type denotes exactly its value when evaluated at compile time. One that does not fit or is malformed is refused.",
     ["inputs"], "all literal strings", INP,
     ["src/parse.rs", "src/lib.rs", "src/int.rs", "src/uint.rs"], [("const_from_str_prefixed", "src/parse.rs")])
prop("C16", "Formatting prints the exact digits and honours the format options",
     "Formatting a value in decimal, hexadecimal, octal or binary prints exactly its digits (two's complement for the non-decimal forms) with the sign and prefix primitives use, and honours width, fill, alignment, sign and alternate options the way primitives do. Parsing what was printed gives the value back.",
     ["inputs", "configurations"], "all values, all format options", INP,
     ["src/fmt.rs", "src/macros/fmt.rs", "src/int/fmt.rs", "src/uint/fmt.rs"],
     [("Display/LowerHex/...", "src/macros/fmt.rs, src/int/fmt.rs, src/uint/fmt.rs"), ("digit generation", "src/fmt.rs")])
prop("C17", "Textual serialization round-trips",
     "Every value serialized in any of the text forms (default, prefixed, permissive, hexadecimal, decimal) deserializes to the same value. Malformed or out-of-range input is refused with an error rather than a panic or a wrapped value.",
     ["inputs"], "all values, all inputs to the deserializers", INP,
     ["src/serde.rs"], [("Serialize/Deserialize modules", "src/serde.rs")])
prop("C18", "Byte serialization round-trips",
     "Every value serialized in any of the fixed-size or compressed byte forms, in either byte order, deserializes to the same value. The compressed form drops only redundant leading bytes, and deserializing rejects input of a wrong length with an error rather than a panic.",
     ["inputs"], "all values, all byte inputs to the deserializers", INP,
     ["src/serde.rs"], [("bytes and compressed_bytes modules", "src/serde.rs")])
prop("C19", "Byte array conversions are exact in every byte order",
     "Converting to bytes in little-endian, big-endian or native order lays out the two's complement pattern in that order, and converting from bytes is the exact inverse. Converting to and from a byte order, and word access, agree with it, on little-endian and on big-endian targets.",
     ["inputs", "configurations"], "all values, both target byte orders",
     "tests run on a little-endian host only and sample a handful of values",
     ["src/int/api.rs", "src/uint/api.rs", "src/int.rs", "src/uint.rs", "src/intrinsics/cast.rs"],
     [("to/from_{be,le,ne}_bytes", "src/int/api.rs, src/uint/api.rs"), ("word layout", "src/int.rs, src/uint.rs")])
prop("C20", "Unsafe code is sound",
     "No safe use of the library, with any input, reads uninitialized memory, writes outside the object it was given, misaligns a reference, or breaks a validity invariant. Every output slot handed to an arithmetic primitive is fully written before it is read.",
     ["inputs", "configurations"], "all calls of the safe API, all inputs, both byte orders",
     "undefined behaviour need not make a test fail; the tests run without a checker on one target",
     ["src/intrinsics/cast.rs", "src/intrinsics/native/divmod.rs", "src/fmt.rs", "src/error.rs", "src/int/api.rs", "src/uint/api.rs", "src/macros/ops.rs"],
     [("pointer casts and transmutes", "src/intrinsics/cast.rs"), ("MaybeUninit outputs", "src/int/api.rs, src/uint/api.rs, src/macros/ops.rs"), ("digit buffers", "src/fmt.rs")])
prop("C21", "Only documented conditions panic",
     "The checked, wrapping, overflowing and saturating operations, comparisons, bit operations, conversions, parsing and formatting never panic, for any input and in any build, except where their documentation says they do (a zero divisor in the non-checked forms, a radix out of range, an explicitly unwrapped result).",
     ["inputs", "configurations"], "all inputs, debug and release builds",
     "a panic on one input out of 2^256 is invisible to samples, and the release-mode tests do not show arithmetic overflow",
     ["src/int.rs", "src/uint.rs", "src/int/api.rs", "src/uint/api.rs", "src/intrinsics/native/*.rs", "src/fmt.rs", "src/parse.rs"],
     [("all public operations", "src/int/api.rs, src/uint/api.rs")])
prop("C22", "The LLVM-backed build agrees with the native one",
     "With the compiler-generated primitives enabled, every operation gives the same results, flags and panics as the native implementation, for all inputs. The generated entry points have the signatures, operand order and width the library calls them with.",
     ["inputs", "configurations"], "all inputs, the LLVM-intrinsics configuration against the native one",
     "the tests only sample a few operands in the LLVM configuration",
     ["src/intrinsics/llvm.rs", "intrinsics/src/lib.rs", "intrinsics/build/main.rs", "intrinsics/build/intrinsics.rs"],
     [("foreign declarations", "intrinsics/src/lib.rs"), ("IR templates", "intrinsics/build/intrinsics.rs"), ("wrappers", "src/intrinsics/llvm.rs")])
prop("C23", "Sums and products over iterators are exact folds",
     "Summing or multiplying any sequence of values, owned or borrowed, gives the left-to-right fold of the corresponding operator starting from zero or one, with the operator's overflow behaviour. An empty sequence gives zero or one.",
     ["inputs"], "all finite sequences of values", INP,
     ["src/macros/iter.rs", "src/int/iter.rs", "src/uint/iter.rs"], [("Sum/Product impls", "src/macros/iter.rs")])
prop("C24", "Power-of-two queries are exact",
     "A value is reported to be a power of two exactly when it is one. The next power of two is the least power of two not below the value; when that does not fit, the checked form gives none and the plain form panics in builds with overflow checks and gives zero otherwise.",
     ["inputs", "configurations"], "all values, debug and release builds", INP,
     ["src/uint/api.rs"], [("is_power_of_two/next_power_of_two", "src/uint/api.rs")])
prop("C25", "Constants and word constructors denote what their names say",
     "The minimum, maximum, zero, one, minus one and bit-width constants have their mathematical values. Constructing a value from words or from a 128-bit primitive and reading or replacing its words back is exact, with sign extension for the signed type.",
     ["inputs", "configurations"], "all words, both byte orders", INP,
     ["src/int.rs", "src/uint.rs"], [("constants, new, from_words, into_words, low/high", "src/int.rs, src/uint.rs")])
prop("C26", "Operations are pure and usable across threads and at compile time",
     "No operation of the library reads or writes state other than its arguments and result, so results depend on nothing else and any number of threads may use it freely. The two number types are plain copyable, sendable, shareable values of 32 bytes, and the constructors documented as compile-time usable are.",
     ["schedules", "histories", "programs"], "all call sequences and interleavings, all programs using the types",
     "purity and thread-safety quantify over schedules and programs, which no test enumerates",
     ["src/lib.rs", "src/int.rs", "src/uint.rs", "src/intrinsics"], [("absence of statics and interior mutability", "src/**")])

LEVEL = "other"
PENDING = "no check registered yet"
NA = {}


def main():
    from sa import registry
    with open(OUT + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        r = registry.PROPS.get(p["id"])
        if r is None:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 sa/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 sa/check.py %s --tier thorough" % p["id"],
                       "technique": getattr(r, "technique", "static: path-partitioned abstract interpretation of MIR in an exact linear-integer domain"),
                       "level": LEVEL, "level_note": r.note()})
    man = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], PENDING)} for p in P if p["id"] not in registry.PROPS],
           "notes": "Every check extracts the MIR of /repo's current working tree with the rustc driver in driver/, and decides obligations over it; nothing of the library is executed."}
    json.dump(man, open(OUT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)


main()
