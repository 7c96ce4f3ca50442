#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable).
import json
P=[]
def p(id,title,statement,qtext,why,files,mech,observe,over=("inputs",),state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,"anchors":a})
H="binary16/binary16.go";Q="binary128/binary128.go";X="float80x86/float80x86.go";D="float128ppc/float128ppc.go";B="bfloat/bfloat.go";R="float.go"

p("C01","binary16 decoding is exact for every bit pattern",
 "For every 16-bit pattern, converting the half-precision number built from it to a multi-precision float gives exactly the value IEEE 754 assigns to the pattern (normal, subnormal, signed zero, signed infinity) with the right sign bit, and reports NaN exactly for the NaN patterns, whose sign bit is kept on the returned zero. The result has 11 bits of precision, rounding mode to-nearest-even and accuracy Exact.",
 "all 2^16 bit patterns","TestNewFromBits samples about 65 patterns; the exhaustive generated table is not part of the tree",
 [H],[("Big",H+": Float.Big"),("field extraction",H+": Signbit, Exp, Frac")],["binary16.NewFromBits(bits).Big()"])
p("C02","bfloat16 decoding is exact for every bit pattern",
 "For every 16-bit pattern, converting the bfloat16 number built from it to a multi-precision float gives exactly the value the bfloat16 format assigns to the pattern (8 exponent bits with bias 127, 7 fraction bits; subnormals, signed zeros and infinities included) with the right sign bit, and reports NaN exactly for the NaN patterns, whose sign bit is kept on the returned zero. The result has 8 bits of precision, rounding mode to-nearest-even and accuracy Exact.",
 "all 2^16 bit patterns","TestNewFromBits samples 10 patterns and none is subnormal",
 [B],[("Big",B+": Float.Big"),("field extraction",B+": Signbit, Exp, Frac")],["bfloat.NewFromBits(bits).Big()"])
p("C03","binary128 decoding is exact for every bit pattern",
 "For every 128-bit pattern, converting the quadruple-precision number built from it to a multi-precision float gives exactly the value IEEE 754 assigns to the pattern (normal, subnormal, signed zero, signed infinity) with the right sign bit, and reports NaN exactly for the NaN patterns (a non-zero fraction in either half), whose sign bit is kept on the returned zero. The result has 113 bits of precision, rounding mode to-nearest-even and accuracy Exact.",
 "all 2^128 bit patterns","the input space cannot be enumerated; TestNewFromBits samples 16 patterns",
 [Q],[("Big",Q+": Float.Big"),("field extraction",Q+": Signbit, Exp, Frac")],["binary128.NewFromBits(a, b).Big()"])
p("C04","x86 extended-precision decoding is exact for every bit pattern",
 "For every 80-bit pattern (16-bit sign and exponent, 64-bit significand), converting the x86 extended-precision number built from it to a multi-precision float gives exactly (-1)^sign * significand * 2^(e-16383-63), where the significand carries its explicit integer bit and e is the exponent field, or 1 when the field is zero (subnormals and pseudo-denormals). An all-ones exponent is infinity when the significand is exactly 0x8000000000000000 and NaN otherwise (sign bit kept on the returned zero); zeros keep their sign, and the result has 64 bits of precision, rounding mode to-nearest-even and accuracy Exact.",
 "all 2^80 bit patterns, unnormals and pseudo-denormals included","the input space cannot be enumerated; TestNewFromBits samples 8 patterns, none subnormal, unnormal or with a non-trivial fraction",
 [X],[("Big",X+": Float.Big"),("field extraction",X+": Signbit, Exp, Lead, Frac")],["float80x86.NewFromBits(se, m).Big()"])
p("C05","double-double decoding is the exact sum of the two doubles",
 "For every pair of 64-bit patterns, converting the double-double number built from it to a multi-precision float gives exactly the sum of the two IEEE doubles, however far apart they are, with accuracy Exact; a zero sum takes the sign of the high part and an infinite part gives that infinity. NaN is reported (here and by IsNaN) exactly when either part is NaN or the parts are opposite infinities, the returned zero then carries the sign bit of the high part, and no pair makes the conversion panic.",
 "all pairs of 64-bit patterns, canonical or not","2^128 pairs; TestRoundTrip samples 13, with few exponent gaps",
 [D],[("Big",D+": Float.Big"),("IsNaN",D+": Float.IsNaN"),("precision",D+": precision of the sum")],["float128ppc.NewFromBits(a, b).Big()","float128ppc.Float.IsNaN()"])
p("C06","binary16 encoding rounds every multi-precision float to nearest even",
 "For every multi-precision float, of any precision, exponent and rounding mode, the half-precision number built from it is the IEEE 754 round-to-nearest-even result: subnormals are rounded at the subnormal spacing, magnitudes of at least 65520 become infinity, magnitudes of at most 2^-25 become zero, and the sign is always kept. The returned accuracy is Below, Exact or Above according to whether the encoded value is less than, equal to or greater than the argument, and a finite argument is never encoded as NaN.",
 "all finite and infinite big.Float values within the stated precision bound, every exponent","infinitely many inputs; the tests have no NewFromBig case and reach it only with exactly representable values",
 [H],[("NewFromBig",H+": NewFromBig")],["binary16.NewFromBig(x)"])
p("C07","binary16 encoding of float32 and float64 rounds to nearest even",
 "For every float64 and every float32, the half-precision number built from it is the IEEE 754 round-to-nearest-even result with a single rounding (no double rounding into subnormals, overflow to infinity from 65520 on), and the returned accuracy is Below, Exact or Above according to whether the encoded value is less than, equal to or greater than the argument. NaNs map to the package's NaN or NegNaN value by sign with accuracy Exact, infinities and zeros keep their sign.",
 "all 2^64 float64 and 2^32 float32 bit patterns","the tests sample about 65 float64 values, all but one exactly representable, and no float32",
 [H],[("NewFromFloat64",H+": NewFromFloat64"),("NewFromFloat32",H+": NewFromFloat32"),("NewFromBig",H+": NewFromBig")],["binary16.NewFromFloat64(x)","binary16.NewFromFloat32(x)"])
p("C08","binary128 encoding rounds every multi-precision float to nearest even",
 "For every multi-precision float, of any precision, exponent and rounding mode, the quadruple-precision number built from it is the IEEE 754 round-to-nearest-even result: subnormals are rounded at the subnormal spacing 2^-16494, magnitudes that round past the largest finite number become infinity, magnitudes of at most 2^-16495 become zero, and the sign is always kept. The returned accuracy is Below, Exact or Above according to whether the encoded value is less than, equal to or greater than the argument, and a finite argument is never encoded as NaN.",
 "all finite and infinite big.Float values within the stated precision bound, every exponent","infinitely many inputs; the tests have no NewFromBig case beyond those reached through float64, none of which rounds or is subnormal",
 [Q],[("NewFromBig",Q+": NewFromBig")],["binary128.NewFromBig(x)"])
p("C09","binary128 encoding of float32 and float64 is exact",
 "For every float64 and every float32 that is not NaN, the quadruple-precision number built from it has exactly the same value and sign (subnormal inputs become normal numbers, infinities and zeros keep their sign) and the reported accuracy is Exact. NaNs map to the package's NaN or NegNaN value by sign, with accuracy Exact.",
 "all 2^64 float64 and 2^32 float32 bit patterns","the tests sample 10 values and mask the low 60 bits of the result",
 [Q],[("NewFromFloat64",Q+": NewFromFloat64"),("NewFromFloat32",Q+": NewFromFloat32"),("NewFromBig",Q+": NewFromBig")],["binary128.NewFromFloat64(x)","binary128.NewFromFloat32(x)"])
p("C10","x86 extended encoding rounds every multi-precision float to nearest even",
 "For every multi-precision float, of any precision, exponent and rounding mode, the x86 extended-precision number built from it is the round-to-nearest-even result in canonical form (explicit integer bit set for normal numbers and clear for subnormals, never a pseudo-denormal, unnormal or pseudo-infinity): subnormals are rounded at the spacing 2^-16445, magnitudes that round past the largest finite number become infinity, magnitudes of at most 2^-16446 become zero, and the sign is always kept. The returned accuracy is Below, Exact or Above according to whether the encoded value is less than, equal to or greater than the argument.",
 "all finite and infinite big.Float values within the stated precision bound, every exponent","infinitely many inputs; the tests reach NewFromBig with 6 exactly representable powers of two",
 [X],[("NewFromBig",X+": NewFromBig")],["float80x86.NewFromBig(x)"])
p("C11","x86 extended encoding of float32 and float64 is exact",
 "For every float64 and every float32 that is not NaN, the x86 extended-precision number built from it has exactly the same value and sign, is canonical (explicit integer bit set unless zero), and the reported accuracy is Exact; infinities and zeros keep their sign. NaNs map to the package's NaN or NegNaN value by sign, with accuracy Exact.",
 "all 2^64 float64 and 2^32 float32 bit patterns","the tests sample 8 values, none with a fraction",
 [X],[("NewFromFloat64",X+": NewFromFloat64"),("NewFromFloat32",X+": NewFromFloat32"),("NewFromBig",X+": NewFromBig")],["float80x86.NewFromFloat64(x)","float80x86.NewFromFloat32(x)"])
p("C12","double-double encoding splits every multi-precision float correctly",
 "For every multi-precision float, the high part of the double-double number built from it is the float64 nearest (ties to even) to the argument, and the low part is the float64 nearest to the exact remainder argument minus high (a zero of either sign where that is zero); when high overflows to an infinity the low part is zero. The returned accuracy is Below, Exact or Above according to whether the sum of the two parts is less than, equal to or greater than the argument; infinities and signed zeros map to themselves and no argument causes a panic.",
 "all finite and infinite big.Float values within the stated precision bound, every exponent","infinitely many inputs; TestRoundTrip samples 13 exactly representable values",
 [D],[("NewFromBig",D+": NewFromBig")],["float128ppc.NewFromBig(x)"])
p("C13","double-double encoding of float32 and float64 is exact",
 "For every float64 and every float32 that is not NaN, the double-double number built from it has the argument itself as high part (bit for bit) and positive zero as low part, with accuracy Exact. NaNs map to the package's NaN or NegNaN value by sign, with accuracy Exact.",
 "all 2^64 float64 and 2^32 float32 bit patterns","no test calls these constructors of the double-double package",
 [D],[("NewFromFloat64",D+": NewFromFloat64"),("NewFromFloat32",D+": NewFromFloat32")],["float128ppc.NewFromFloat64(x)","float128ppc.NewFromFloat32(x)"])
p("C14","binary16 to float32 and float64 conversion is exact",
 "For every 16-bit pattern, converting the half-precision number to float32 or float64 gives exactly its value with accuracy Exact: signed zeros and infinities keep their sign, and a NaN gives a NaN with the same sign bit.",
 "all 2^16 bit patterns","TestNewFromBits samples about 65 patterns for Float64 and none for Float32",
 [H],[("Float32",H+": Float.Float32"),("Float64",H+": Float.Float64")],["binary16.Float.Float32()","binary16.Float.Float64()"])
p("C15","binary128 to float32 and float64 conversion rounds once, to nearest even",
 "For every 128-bit pattern, converting the quadruple-precision number to float64 or float32 gives the IEEE 754 round-to-nearest-even result of its exact value with a single rounding (subnormal results and overflow to infinity included), and the accuracy is Below, Exact or Above according to whether the result is less than, equal to or greater than the number. Signed zeros and infinities keep their sign, and a NaN gives a NaN with the same sign bit and accuracy Exact.",
 "all 2^128 bit patterns","cannot be enumerated; no test checks Float64 or Float32 results of this package",
 [Q],[("Float32",Q+": Float.Float32"),("Float64",Q+": Float.Float64"),("Big",Q+": Float.Big")],["binary128.Float.Float32()","binary128.Float.Float64()"])
p("C16","x86 extended to float32/float64 conversion rounds once, to nearest even",
 "For every 80-bit pattern, converting the x86 extended-precision number to float64 or float32 gives the IEEE 754 round-to-nearest-even result of its exact value with a single rounding (subnormal results and overflow to infinity included), and the accuracy is Below, Exact or Above according to whether the result is less than, equal to or greater than the number. Signed zeros and infinities keep their sign, and a NaN gives a NaN with the same sign bit and accuracy Exact.",
 "all 2^80 bit patterns","cannot be enumerated; the tests check Float64 on 8 patterns without rounding and Float32 on none",
 [X],[("Float32",X+": Float.Float32"),("Float64",X+": Float.Float64"),("Big",X+": Float.Big")],["float80x86.Float.Float32()","float80x86.Float.Float64()"])
p("C17","double-double to float32/float64 conversion rounds once, to nearest even",
 "For every pair of 64-bit patterns, converting the double-double number to float64 or float32 gives the IEEE 754 round-to-nearest-even result of the exact sum of the two parts with a single rounding, and the accuracy is Below, Exact or Above according to whether the result is less than, equal to or greater than that sum. Signed zeros and infinities keep their sign, a NaN gives a NaN with the sign bit of the high part and accuracy Exact, and no pair causes a panic.",
 "all pairs of 64-bit patterns within the stated bounds","cannot be enumerated; no test calls Float64 or Float32 of this package",
 [D],[("Float32",D+": Float.Float32"),("Float64",D+": Float.Float64"),("Big",D+": Float.Big")],["float128ppc.Float.Float32()","float128ppc.Float.Float64()"])
p("C18","bit patterns survive unchanged and field accessors partition them",
 "For every bit pattern of the half, quadruple, x86 extended and double-double formats, the number built from the pattern returns exactly that pattern as its bits. In the half, bfloat16, quadruple and x86 extended formats the sign bit, exponent field, fraction and (x86) explicit integer bit reported by the accessors are exactly the corresponding fields, so that together they determine the pattern.",
 "all bit patterns of the five formats","the accessors are untested; only sampled patterns pass through Bits",
 [H,B,Q,X,D],[("Bits/NewFromBits",H+", "+Q+", "+X+", "+D),("Signbit/Exp/Frac/Lead",H+", "+B+", "+Q+", "+X)],["NewFromBits(...).Bits()","Signbit, Exp, Frac, Lead"])
p("C19","decoding then re-encoding a number gives back the same bits",
 "For every canonical non-NaN bit pattern of the half, quadruple, x86 extended and double-double formats (double-double: high is the nearest double to the exact sum, and a zero low part is positive zero), decoding it to a multi-precision float and encoding that float again gives the same bits with accuracy Exact. For the half, quadruple and x86 formats this includes subnormals, signed zeros and infinities.",
 "all canonical bit patterns of the four formats","cannot be enumerated; the one existing round-trip test samples 13 double-double values and fails on one of them in the base tree",
 [H,Q,X,D],[("Big",H+", "+Q+", "+X+", "+D),("NewFromBig",H+", "+Q+", "+X+", "+D)],["NewFromBig(NewFromBits(bits).Big())"])
p("C20","conversions do not modify their arguments or share state between calls",
 "Encoding a multi-precision float leaves the argument's value, sign, precision, rounding mode and accuracy untouched. Every decoding returns a fresh multi-precision float: changing one returned value alters neither the number it came from nor any value returned before or afterwards, so the results of a sequence of calls depend only on each call's own argument.",
 "all arguments, and all sequences of up to the stated number of calls on arbitrary numbers with the results mutated in between","tests call each conversion once per value and never look at the argument again",
 [H,B,Q,X,D,R],[("NewFromBig",H+", "+Q+", "+X+", "+D),("Big",H+", "+B+", "+Q+", "+X+", "+D)],["x before and after NewFromBig(x)","two results of Big()"],over=("inputs","histories"))
p("C21","special values keep kind and sign through every conversion",
 "In the half, quadruple, x86 extended and double-double packages the exported NaN, NegNaN, Inf, NegInf, Zero and NegZero values decode to what their names say, sign included. Encoding a zero, an infinity or (from float32/float64) a NaN of either sign gives exactly the corresponding exported value with accuracy Exact, whatever the precision, rounding mode or NaN payload of the source, and converting the exported values to float32 or float64 gives the hardware value of the same kind and sign.",
 "all special values of every source type, all NaN payloads, precisions and rounding modes","tests check a handful of special values per package; infinities through NewFromBig and all double-double constants are untested",
 [H,Q,X,D],[("exported values",H+", "+Q+", "+X+", "+D+": var block"),("special cases",H+", "+Q+", "+X+", "+D+": NewFromFloat64, NewFromBig")],["NaN, NegNaN, Inf, NegInf, Zero, NegZero","NewFromBig, NewFromFloat32, NewFromFloat64","Float32, Float64, Big"],over=("inputs","configurations"))
p("C22","exact-representability queries answer exactly",
 "For every multi-precision float, IsExact16, IsExact32 and IsExact64 report true exactly when the value is representable without loss as an IEEE 754 half-, single- or double-precision number (subnormals, signed zeros and infinities count as representable) and false otherwise. They never panic and do not modify their argument.",
 "all finite and infinite big.Float values within the stated precision bound, every exponent","no test calls these functions",
 [R,H],[("IsExact16/32/64",R),("NewFromBig",H+": NewFromBig")],["float.IsExact16(x)","float.IsExact32(x)","float.IsExact64(x)"])
p("C23","hardware floats survive a trip through the wider formats",
 "For every float64 x that is not NaN, building a quadruple, x86 extended or double-double number from x and converting it back to float64 returns x bit for bit with accuracy Exact, and the same holds for every float32 through these formats and back; every half-precision number survives going to float32 or float64 and back. A NaN comes back as a NaN with the same sign.",
 "all 2^64 float64, 2^32 float32 and 2^16 half-precision patterns","no test composes the two directions",
 [H,Q,X,D],[("NewFromFloat32/64",H+", "+Q+", "+X+", "+D),("Float32/64",H+", "+Q+", "+X+", "+D)],["NewFromFloat64(x).Float64()","NewFromFloat32(x).Float32()"])
p("C24","encoding is monotone and symmetric under negation",
 "For every two multi-precision floats x <= y, the half, quadruple and x86 extended numbers built from them compare the same way (encoded x is not greater than encoded y), and encoding -x gives the encoding of x with only the sign bit flipped and the accuracy mirrored. For double-double, encoding -x negates both parts (a zero low part may keep its sign) and mirrors the accuracy.",
 "all pairs of big.Float values within the stated precision bound","a relation between two runs, which no test compares",
 [H,Q,X,D],[("NewFromBig",H+", "+Q+", "+X+", "+D)],["NewFromBig(x), NewFromBig(y), NewFromBig(-x)"])
p("C25","integer formatting round-trips in every base",
 "The internal formatter writes every 64-bit signed and unsigned integer, in every base from 2 to 36, as a minus sign (for negative integers only) followed by lower-case digits without leading zeros whose positional value is the magnitude of the integer. The append variants add the same bytes after the existing contents of the buffer without changing them. A base outside 2..36 panics instead of giving wrong digits.",
 "all int64/uint64 values, all bases 2..36","the internal package has no tests",
 ["internal/strconv/itoa.go"],[("formatBits","internal/strconv/itoa.go")],["strconv.FormatInt, FormatUint, Itoa, AppendInt, AppendUint (internal)"])
p("C26","binary-exponent float formatting states the exact value",
 "The internal float formatter with format 'b' writes every finite half, single and double value as an optional minus sign (exactly when the sign bit is set), the format's own integer mantissa (hidden bit included) in decimal, the letter p and the signed decimal exponent, so that mantissa * 2^exponent is exactly the value, whatever precision is asked for. A double that the half or single format does not hold is rounded to it first, to nearest even (overflow to infinity and underflow to zero included). Infinities and NaNs are written as +Inf, -Inf and NaN in every format and bit size. The append variant adds the same bytes after the existing contents of the buffer.",
 "all float64, float32 and half values","the internal package has no tests",
 ["internal/strconv/ftoa.go"],[("genericFtoa, fmtB","internal/strconv/ftoa.go")],["strconv.FormatFloat(x, 'b', -1, 16|32|64) (internal)"])
p("C27","decimal float formatting is correctly rounded and shortest round-trip",
 "The internal float formatter writes every half, single and double value in the formats e, E, f, g and G so that: for a given digit count the number written is the nearest one to the value with its last digit at that place, and of two equally near the one with an even last digit; in the shortest mode (precision -1) it is a shortest decimal that reads back as the same value, and the nearest to the value of those. The layout is the one the format letter and precision ask for: one nonzero digit before the point and a signed exponent of at least two digits for e, the digits after the point that were asked for with e and f, no trailing zeros after the point and at most precision digits with g, which uses the exponent form when the decimal exponent is below -4 or at least the precision (6 for shortest).",
 "all float64, float32 and half values, all precisions","the internal package has no tests",
 ["internal/strconv/ftoa.go","internal/strconv/decimal.go","internal/strconv/extfloat.go"],[("genericFtoa","internal/strconv/ftoa.go"),("decimal","internal/strconv/decimal.go"),("extFloat","internal/strconv/extfloat.go")],["strconv.FormatFloat (internal)"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
