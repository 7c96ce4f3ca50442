package h

import (
	"math/big"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

// C01_Decode: every half-precision pattern.
func C01_Decode() {
	b := vsym.U16("bits")
	x, nan := binary16.NewFromBits(b).Big()
	half.checkDecode(x, nan, half.split(vsym.WU(16, uint64(b))))
}

// C02_Decode: every bfloat16 pattern.
func C02_Decode() {
	b := vsym.U16("bits")
	x, nan := bfloat.NewFromBits(b).Big()
	bf16.checkDecode(x, nan, bf16.split(vsym.WU(16, uint64(b))))
}

// C03_Decode: every quadruple-precision pattern.
func C03_Decode() {
	a, b := vsym.U64("a"), vsym.U64("b")
	x, nan := binary128.NewFromBits(a, b).Big()
	quad.checkDecode(x, nan, quad.split(vsym.WU(64, a).Concat(vsym.WU(64, b))))
}

// C04_Decode: every x86 extended pattern.
func C04_Decode() {
	se, m := vsym.U16("se"), vsym.U64("m")
	x, nan := float80x86.NewFromBits(se, m).Big()
	vsym.ObsF("x", x)
	vsym.ObsB("nan", nan)
	exp := int(se & 0x7FFF)
	isNaN := vsym.And(exp == 0x7FFF, m != 1<<63)
	vsym.Assert(nan == isNaN, "nan is reported exactly for the NaN patterns")
	vsym.Assert(x.Signbit() == (se>>15 != 0), "the sign bit is kept")
	vsym.Assert(x.Prec() == 64, "the precision is that of the format")
	vsym.Assert(x.Mode() == big.ToNearestEven, "the rounding mode is to nearest even")
	vsym.Assert(x.Acc() == big.Exact, "the accuracy is Exact")
	checkX86Value(x, exp, m)
}

// checkX86Value states that the magnitude of x is that of the pattern.
func checkX86Value(x *big.Float, exp int, m uint64) {
	switch {
	case exp == 0x7FFF:
		if m == 1<<63 {
			vsym.Reach("infinity")
			vsym.Assert(x.IsInf(), "an infinity decodes to an infinity")
		} else {
			vsym.Reach("nan")
			vsym.Assert(isZero(x), "a NaN is returned as zero")
		}
	case m == 0:
		vsym.Reach("zero")
		vsym.Assert(isZero(x), "zero decodes to zero")
	default:
		e := vsym.IteI(exp == 0, 1, exp)
		if exp == 0 {
			vsym.Reach("subnormal")
		} else if m>>63 != 0 {
			vsym.Reach("normal")
		} else {
			vsym.Reach("unnormal")
		}
		checkExact(x, vsym.WU(64, m), e-16383-63)
	}
}
