NOT_APPLICABLE = {}
DEC = "No bound: all bit patterns are covered."
ENC = "Bounds: mantissas of at most 512 bits (quick) or 2048 bits (thorough); every exponent, precision, rounding mode and accuracy of a big.Float."
PPC = "Bounds: mantissas of at most 192 bits (quick) or 400 bits (thorough) where both parts are formed (110 bits for subnormal high parts in the quick check); every exponent, precision, rounding mode and accuracy of a big.Float."
for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C09", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C23"):
    CLAIMED[p] = DEC
for p in ("C06", "C08", "C10", "C22"):
    CLAIMED[p] = ENC
CLAIMED["C12"] = PPC
CLAIMED["C24"] = ENC + " " + PPC
DIST = ("The patterns are covered by the distance between the exponents of the two parts. Two normal doubles: distances within 130 and 26 larger ones (quick), all (thorough). "
    "A normal and a subnormal: 10 distances (quick), 45 (thorough). Two subnormals: 4 lengths of the high part (quick), all (thorough). Zeros, infinities, NaNs: all.")
CLAIMED["C05"] = CLAIMED["C17"] = DIST
CLAIMED["C19"] = ("Half, quadruple, x86: all bit patterns. Double-double, by the distance of the exponents: two normals 53..110 and 17 larger ones (quick), all (thorough); "
    "a normal and a subnormal 10 distances (quick), 160 (thorough); zero low parts: all.")
CLAIMED["C20"] = ENC + " " + PPC + " Sequences of two or three calls."
CLAIMED["C21"] = ENC + " Every precision, rounding mode and NaN payload."
CLAIMED["C25"] = "No bound: all 64-bit values and all bases; the integer is taken by its digits in the base, a bijection that keeps every division by the base linear."
CLAIMED["C26"] = "No bound: all values of the three formats. Doubles that are rounded to half or single first: all that overflow or underflow, and for five exponents those that round to a normal number (single, quick: to windows of 500 of them)."
CLAIMED["C27"] = ("Half: all values; shortest in e, f and g, and per exponent one precision (quick) or eleven (thorough) for each of e, f, g. "
    "Single and double, the arithmetic in 64 bits: all mantissas of some exponents (quick: 6 shortest and 43 fixed for single, 84 fixed for double, one for each entry of the table of powers of ten; "
    "thorough: all exponents, as far as the time goes). Single and double, decimal arithmetic: windows of 2^2 to 2^8 (quick) or 2^3 to 2^12 (thorough) adjacent mantissas, at the places the harnesses name. "
    "Elsewhere the singles and doubles are not covered.")
