"""Writes properties.jsonl and MANIFEST.json (the lists are maintained here)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

B16, BF, B128, X80, PPC = ("binary16/binary16.go", "bfloat/bfloat.go", "binary128/binary128.go",
                           "float80x86/float80x86.go", "float128ppc/float128ppc.go")
STR = ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"]
ITOA = "internal/strconv/itoa.go"
ROOT = "float.go"


def m(name, where):
    return {"name": name, "where": where}


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}


PROPS = [
    prop("C01", "16-bit encodings decode to exactly the number they denote",
         "For each of the 65536 half-precision and each of the 65536 bfloat16 encodings, converting the value to a multi-precision number gives exactly the number the IEEE 754 layout (sign, biased exponent, fraction, gradual underflow) assigns to it, with infinities and signed zeros as such. Exactly the encodings with an all-ones exponent and a non-zero fraction are reported as NaN, with a zero of the NaN's sign as the number.",
         ["inputs"], "all 2 x 65536 encodings",
         "The tests sample a handful of bit patterns per format; a wrong subnormal, boundary exponent or a single mis-decoded pattern goes unnoticed.",
         [B16, BF], [m("binary16 Float.Big", B16), m("bfloat Float.Big", BF)],
         ["binary16.NewFromBits(..).Big()", "bfloat.NewFromBits(..).Big()"]),
    prop("C02", "Quadruple-precision encodings decode to exactly the number they denote",
         "For every 128-bit IEEE 754 quadruple-precision encoding, converting the value to a multi-precision number gives exactly the number its sign, biased exponent and 112-bit fraction denote, subnormals, infinities and signed zeros included. Exactly the encodings with an all-ones exponent and a non-zero fraction (in either 64-bit half) are reported as NaN, with a zero of the NaN's sign as the number.",
         ["inputs"], "all 2^128 encodings",
         "The tests decode some dozens of encodings; the space is 2^128 and errors hide in particular fraction bits, in the split over two words and in the exponent extremes.",
         [B128], [m("binary128 Float.Big", B128)], ["binary128.NewFromBits(..).Big()"]),
    prop("C03", "x87 extended encodings decode to exactly the number they denote",
         "For every 80-bit x87 extended encoding the multi-precision number obtained is exactly (-1)^sign * significand * 2^(max(exponent,1) - 16383 - 63) with the stored 64-bit significand taken as it is, so also for encodings whose stored leading bit does not match the exponent (unnormals, pseudo-denormals). With an all-ones exponent the significand 2^63 alone is infinity and every other significand is NaN, reported with a zero of the NaN's sign as the number.",
         ["inputs"], "all 2^80 encodings, canonical or not",
         "The tests decode a few normalized encodings; the stored leading bit, the special encodings and the exponent extremes are not reached.",
         [X80], [m("float80x86 Float.Big", X80)], ["float80x86.NewFromBits(..).Big()"]),
    prop("C04", "Double-double encodings decode to the exact sum of their halves",
         "For every pair of float64 encodings, converting the double-double value to a multi-precision number gives the exact sum of the two halves, however far apart they are and whether or not the pair is canonical; a zero sum has the sign of the high half. The value is NaN exactly when a half is NaN or the halves are opposite infinities, and a single infinite half makes it that infinity.",
         ["inputs"], "all 2^128 pairs of float64 encodings",
         "The tests look at fewer than ten pairs; exactness over a gap of up to 2^2098 between the halves, cancellation and mixed special halves are not sampled.",
         [PPC], [m("float128ppc Float.Big", PPC), m("float128ppc Float.IsNaN", PPC)],
         ["float128ppc.NewFromBits(..).Big()", "float128ppc.Float.IsNaN()"]),
    prop("C05", "Encoding to half precision rounds to nearest, ties to even",
         "For every multi-precision number x (any precision, rounding mode and exponent) encoding x to half precision gives the representable number nearest to x, ties going to the one with an even last significand bit. Results below the smallest normal number are rounded to subnormals or a signed zero, results that round beyond the largest finite number give the infinity of x's sign, and infinities and signed zeros are kept.",
         ["inputs"], "all multi-precision numbers",
         "Tests convert exactly representable constants; ties, values a tiny distance off a tie, carries into the next binade, the subnormal range and overflow thresholds are not reached.",
         [B16], [m("binary16 NewFromBig", B16), m("binary16 round", B16)], ["binary16.NewFromBig"]),
    prop("C06", "Encoding to quadruple precision rounds to nearest, ties to even",
         "For every multi-precision number x (any precision, rounding mode and exponent) encoding x to quadruple precision gives the representable number nearest to x, ties going to the one with an even last significand bit. Results below the smallest normal number are rounded to subnormals or a signed zero, results that round beyond the largest finite number give the infinity of x's sign, and infinities and signed zeros are kept.",
         ["inputs"], "all multi-precision numbers",
         "Tests convert a few numbers that float64 holds exactly; rounding at 113 bits, carries across the 64-bit word boundary, subnormals and overflow are not reached.",
         [B128], [m("binary128 NewFromBig", B128), m("binary128 round", B128)], ["binary128.NewFromBig"]),
    prop("C07", "Encoding to x87 extended precision rounds to nearest, ties to even",
         "For every multi-precision number x (any precision, rounding mode and exponent) encoding x to x87 extended precision gives the nearest representable number in its canonical encoding (leading bit stored as 1 for normal, 0 for subnormal numbers and zeros), ties going to the one with an even last significand bit. Results below the smallest normal number are rounded to subnormals or a signed zero, results that round beyond the largest finite number give the infinity of x's sign, and infinities and signed zeros are kept.",
         ["inputs"], "all multi-precision numbers",
         "Tests convert a few numbers that float64 holds exactly; rounding at 64 bits, the stored leading bit around the subnormal boundary and overflow are not reached.",
         [X80], [m("float80x86 NewFromBig", X80), m("float80x86 round", X80)], ["float80x86.NewFromBig"]),
    prop("C08", "Encoding to double-double gives the nearest canonical pair",
         "For every multi-precision number x, encoding x to double-double gives a high half that is the float64 nearest to the value of the pair, and a low half that is the float64 nearest to the rest of x; the pair is canonical. Numbers that round beyond the largest float64 give the infinity of x's sign with a zero low half, and infinities and signed zeros are kept.",
         ["inputs"], "all multi-precision numbers",
         "The only test of this conversion converts a few decimal strings (and failed on the original tree); half-ulp ties between the halves, underflowing low halves and overflow are not reached.",
         [PPC], [m("float128ppc NewFromBig", PPC)], ["float128ppc.NewFromBig"]),
    prop("C09", "Reported accuracy is the sign of the rounding error",
         "Every conversion that reports an accuracy -- from a multi-precision number, float32 or float64 to a format, and from a format to float32 or float64 -- reports Exact, Below or Above exactly when the number produced equals, is less than or is greater than the number converted. The accuracy recorded in the argument plays no role, and conversions of NaN report Exact.",
         ["inputs"], "all conversions of all formats, all inputs",
         "Tests ignore the accuracy or check it for exact conversions only; the flag is wrong only for particular combinations of sign, rounding direction, under- and overflow.",
         [B16, B128, X80, PPC],
         [m("NewFromBig / NewFromFloat32 / NewFromFloat64", B16 + ", " + B128 + ", " + X80 + ", " + PPC),
          m("Float32 / Float64", "same files")],
         ["second result of NewFromBig, NewFromFloat32, NewFromFloat64, Float32, Float64"]),
    prop("C10", "Conversion from float32 and float64 is correctly rounded",
         "For every float32 and float64 argument, converting it to half, quadruple, x87 extended or double-double precision gives the nearest number of that format (ties to even), which is the argument itself for all but half precision. Infinities and signed zeros are kept, and a NaN of any payload becomes a NaN of the same sign.",
         ["inputs"], "all 2^32 + 2^64 native arguments, four formats",
         "Tests convert a short list of float64 constants and no float32 subnormals, NaN payloads or halfway cases.",
         [B16, B128, X80, PPC],
         [m("NewFromFloat32", "each format package"), m("NewFromFloat64", "each format package")],
         ["NewFromFloat32", "NewFromFloat64"]),
    prop("C11", "Conversion to float32 and float64 is correctly rounded",
         "For every encoding of half, x87 extended, quadruple and double-double precision, converting the value to float32 or float64 gives the native number nearest to the exact value, ties to even, rounded once: through the native subnormal range down to a signed zero and up to infinity. NaN becomes a native NaN of the same sign; infinities and signed zeros are kept.",
         ["inputs"], "all encodings of four formats, two native types",
         "Tests do not exercise narrowing of values that are not exactly representable; double rounding and native subnormals need specific low bits.",
         [B16, B128, X80, PPC], [m("Float32", "each format package"), m("Float64", "each format package")],
         ["Float.Float32()", "Float.Float64()"]),
    prop("C12", "Conversions round-trip",
         "Decoding any canonical encoding other than a NaN to a multi-precision number and encoding it again gives back the same bits with accuracy Exact, and for a non-canonical encoding the canonical encoding of the same number (for double-double, of the nearest pair). A float32 or float64 converted to a format that includes its own and back is unchanged, bit for bit unless it is a NaN, with both accuracies Exact.",
         ["inputs", "histories"], "all encodings of the encodable formats; all float32 and float64 values",
         "Round trips are tested for a few decimal strings in one package; a mismatch needs particular bit patterns (lowest subnormal bits, word boundaries, half-ulp pairs).",
         [B16, B128, X80, PPC], [m("Big followed by NewFromBig", "each format package"),
                                m("NewFromFloat64 followed by Float64", "each format package")],
         ["NewFromBig(f.Big())", "NewFromFloat64(x).Float64()", "NewFromFloat32(x).Float32()"]),
    prop("C13", "NaN, infinities and signed zeros are handled consistently",
         "The exported constants NaN, NegNaN, Inf, NegInf, Zero and NegZero of each format are canonical encodings of the numbers they are named after, with their signs. NaN (every payload), both infinities and both zeros keep their kind and sign in every conversion between a format, multi-precision numbers and float32/float64, decoding takes no other encoding for one of them, and the double-double NaN test holds exactly for NaN halves and opposite infinities.",
         ["inputs"], "all special encodings of all formats and all conversions; their neighbours",
         "Tests cover one or two special values per format and never NaN payloads, negative NaN, or special values in one half of a pair.",
         [B16, BF, B128, X80, PPC],
         [m("exported variables", "each format package"), m("special cases at the start of NewFromBig, NewFromFloat64, Big", "each format package"),
          m("IsNaN", PPC)],
         ["NaN, NegNaN, Inf, NegInf, Zero, NegZero", "Big", "Float32", "Float64", "IsNaN"]),
    prop("C14", "Raw bits and field accessors agree with the layout",
         "A value made from raw bits gives back exactly those bits, for every format and encoding. Its sign, exponent, fraction and (x87) leading-bit accessors give exactly the corresponding fields of the layout, so that the fields together determine the encoding.",
         ["inputs"], "all encodings of all formats",
         "Tests look at values, hardly at fields; a mask or shift that is off by one bit shows only in particular fields.",
         [B16, BF, B128, X80, PPC], [m("NewFromBits, Bits, Signbit, Exp, Frac, Lead", "each format package")],
         ["Bits", "Signbit", "Exp", "Frac", "Lead"]),
    prop("C15", "Operations are pure: no effects on arguments, results or other calls",
         "In every history of calls, by any number of goroutines and in any interleaving, the outcome of each call depends only on the contents of its arguments at the call: repeating a call gives the same outcome whatever was called before or at the same time. A call never changes its arguments or any value, number or text obtained earlier, and what it returns is fresh, so that changing one affects nothing else; calls on shared arguments are free of data races.",
         ["histories", "schedules"], "all sequences of library calls and client modifications of its own numbers and texts, all interleavings of goroutines",
         "The tests make each call once, in one goroutine, with fresh arguments: caches, shared buffers, aliased results or modified arguments are invisible to them.",
         [B16, BF, B128, X80, PPC, ROOT] + STR + [ITOA],
         [m("no package-level mutable state", "all packages"), m("fresh big.Float in Big, private copies in NewFromBig", "each format package")],
         ["contents of all arguments and earlier results after every call", "race detector"],
         [{"name": "package variables", "meaning": "tables and constants, never written after initialisation", "where": "all packages"}]),
    prop("C16", "Every operation returns: no panic, no hang",
         "Every exported operation returns for every argument in its domain: all encodings, all multi-precision numbers (infinities, zeros, extreme exponents, any precision and mode), all native numbers, all formatting letters, bit sizes 16, 32 and 64, precisions from -1 up (as far as the text fits in memory) and bases from 2 to 36. It neither panics nor fails to terminate, with 64-bit and with 32-bit ints, whatever was called before or is called at the same time.",
         ["inputs", "schedules"], "all arguments of all operations, among other calls",
         "The tests call each operation with ordinary arguments; panics hid in infinite arguments, in opposite infinities and in an unknown format letter with precision zero.",
         [B16, BF, B128, X80, PPC, ROOT] + STR + [ITOA],
         [m("explicit special cases", "each format package"), m("x.Parse error check", "Big of each format package")],
         ["every exported function and method"]),
    prop("C17", "Exactness predicates are exactly right",
         "For each of the sizes 16, 32 and 64 the exactness predicate is true of a finite non-zero number if and only if the number is representable in that size and the shortest decimal that identifies it there denotes it exactly. It is true of zeros and infinities.",
         ["inputs"], "all multi-precision numbers, three sizes",
         "There is no test of these predicates.",
         [ROOT] + STR, [m("IsExact16, IsExact32, IsExact64, trimZeros", ROOT)], ["IsExact16", "IsExact32", "IsExact64"]),
    prop("C18", "Shortest formatting is shortest, nearest and reads back",
         "For sizes 16, 32 and 64, formatting with precision -1 gives a decimal that lies in the rounding interval of the number (so that reading it back at that size gives the number again), has the fewest digits of all such decimals and is the nearest to the number among those; arguments are first rounded to the size. It is laid out as the letters e, E, f, g and G prescribe, with NaN, +Inf and -Inf spelled so and the sign of zero kept.",
         ["inputs"], "all numbers of the three sizes, five layouts",
         "There is no test of the formatting code, which was adapted to 16 bits by hand; shortness and nearness fail for isolated values (one such defect was found and repaired).",
         STR, [m("genericFtoa, ShortestDecimal, roundShortest, formatDigits", ", ".join(STR))], ["FormatFloat(.., -1, ..)"]),
    prop("C19", "Fixed-precision formatting is correctly rounded",
         "For sizes 16, 32 and 64, formatting with precision n >= 0 gives the number rounded to n digits after the point (f), n+1 significant digits (e, E) or at most n significant digits (g, G), correctly rounded with ties to even, with exactly the layout, number of digits and exponent form the letter prescribes. The letter b gives the exact significand and binary exponent.",
         ["inputs"], "all numbers of the three sizes, all precisions, six layouts",
         "There is no test of the formatting code; the fast fixed-precision path and the multi-precision one must agree for every digit count, and ties need particular values.",
         STR, [m("genericFtoa, FixedDecimal, bigFtoa, decimal.Round, fmtE/fmtF/fmtB", ", ".join(STR))], ["FormatFloat"]),
    prop("C20", "Integers are formatted exactly, and appending keeps what is there",
         "Formatting a signed or unsigned 64-bit integer in a base from 2 to 36 gives its digits in that base, lower case, without leading zeros, with a minus sign exactly for negative numbers. The appending variants for integers and floating-point numbers return the destination's contents unchanged followed by the text, whatever the destination's length and spare capacity, and write to its array nowhere else.",
         ["inputs"], "all 64-bit integers, bases 2 to 36, all destinations",
         "There is no test of this code; small-number shortcuts, two-digit tables and the power-of-two path each cover a part of the space.",
         [ITOA, STR[0]], [m("FormatInt, FormatUint, Itoa, AppendInt, AppendUint, formatBits, small", ITOA), m("AppendFloat", STR[0])],
         ["FormatInt", "FormatUint", "Itoa", "AppendInt", "AppendUint", "AppendFloat"]),
    prop("C21", "Conversions preserve order and sign symmetry",
         "Encoding is monotone, from multi-precision numbers and from float32 and float64: if x <= y then the encoding of x does not denote a greater number than the encoding of y, in every format; and negating the argument negates the result and swaps Below and Above. The same holds of the conversions of encodings to float32 and float64. Decoding preserves the order of the encodings: among canonical non-NaN encodings of a format, sign-magnitude order of the bits is the order of the numbers.",
         ["inputs"], "all pairs of numbers and all pairs of encodings",
         "A relation between two calls; the tests never relate two results, and violations sit between neighbouring values around rounding boundaries.",
         [B16, BF, B128, X80, PPC], [m("NewFromBig and Big", "each format package"), m("NewFromFloat32/64, Float32/64", "each format package but bfloat")],
         ["NewFromBig on pairs", "Big on pairs", "NewFromFloat32, NewFromFloat64, Float32, Float64 on pairs and negated arguments"]),
    prop("C22", "Values migrate between formats with one rounding per step",
         "When a value is carried through any chain of formats by decoding to a multi-precision number and encoding into the next format, each step rounds exactly the number that arrived, correctly and once, and reports that step's accuracy; widening steps (half to quadruple or x87, x87 to quadruple, and so on) lose nothing.",
         ["histories", "inputs"], "all chains of formats from all encodings",
         "The packages are tested separately; no test carries a value from one format to another, where precision, mode and accuracy of the intermediate number matter.",
         [B16, BF, B128, X80, PPC], [m("Big of one package, NewFromBig of another", "each format package")],
         ["NewFromBig of one package applied to Big of another, repeatedly"]),
    prop("C23", "Decoded numbers carry the format's precision and round to nearest even",
         "The multi-precision number obtained from a value has the precision of its format -- 11 bits for half, 8 for bfloat16, 64 for x87 extended, 113 for quadruple precision -- and rounding mode to-nearest-even, whatever its kind: finite, zero, infinite or NaN. For double-double the precision is at least 106 bits and enough to hold the exact sum.",
         ["inputs"], "all encodings of all formats",
         "The tests compare values or texts, not precision and mode, on which the client's further arithmetic with the number depends.",
         [B16, BF, B128, X80, PPC], [m("Big", "each format package")], ["Prec() and Mode() of the result of Big"]),
    prop("C24", "Letters, sizes and bases that do not exist are refused, not guessed",
         "Formatting or appending a floating-point number with a bit size other than 16, 32 and 64 panics, as does formatting or appending an integer with a base outside 2 to 36, for every number, leaving the contents of the destination as they were. A letter other than b, e, E, f, g and G gives a percent sign and that letter for every finite number and precision (NaN, +Inf and -Inf are spelled as ever), and every negative precision means what -1 means.",
         ["inputs"], "all numbers with all letters, sizes, bases and negative precisions",
         "There is no test of this code; a bound that is off by one, a shortcut that comes before the check or an internal failure for an unknown letter shows for particular arguments only.",
         STR + [ITOA], [m("switch over bitSize and fmt in genericFtoa, formatDigits", STR[0]), m("base check in formatBits", ITOA)],
         ["FormatFloat", "AppendFloat", "FormatInt", "FormatUint", "AppendInt", "AppendUint"]),
]

TECH = "TLA+ specification model-checked with TLC; recorded calls of the real code trace-checked against it by TLC"
NOTE = {
    "C01": "Exhaustive: all 131072 encodings are decoded by the real code and judged by the TLA+ Decode.",
    "C15": "Behaviours enumerated and simulated by TLC from FloatLib are executed on the real code, with random concurrent histories, repeated calls, millions of calls in a row and a crowd of clients; the full client state after every step is checked against the state machine; the same runs under Go's race detector. Bounded by the generated histories and the schedules that occurred.",
}
DEFAULT = ("Every recorded call is judged by TLC against the exact TLA+ semantics; bounded by the calls made (structured and "
           "boundary-directed generation, TLC-generated boundary cases, and millions of further calls screened by a reference "
           "so that disputed ones go to TLC). Trusts TLC, the BigInteger override (cross-checked) and the driver's projection.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bin/setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "bin/check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE.get(p["id"], DEFAULT),
        } for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo: the driver is compiled into the module with go build -overlay and uses the exported API. Repairs of genuine defects are listed in known-findings.txt.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
