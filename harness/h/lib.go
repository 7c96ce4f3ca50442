// Package h holds the properties, one exported function per harness: the
// executor runs each of them with symbolic inputs.
package h

import (
	"math/big"

	"github.com/mewmew/float/zzverif/vsym"
)

// format describes a binary format with an implicit lead bit: sign, eb
// exponent bits, fb fraction bits.
type format struct {
	eb, fb int
}

func (f format) bias() int { return 1<<uint(f.eb-1) - 1 }
func (f format) emax() int { return 1<<uint(f.eb) - 1 }

var (
	half   = format{5, 10}
	bf16   = format{8, 7}
	single = format{8, 23}
	double = format{11, 52}
	quad   = format{15, 112}
)

// value is a decoded bit pattern: neg, biased exponent, fraction.
type value struct {
	neg  bool
	exp  int
	frac vsym.W
}

// split cuts a bit pattern held in w (width 1+eb+fb).
func (f format) split(w vsym.W) value {
	return value{
		neg:  w.Bit(f.eb + f.fb),
		exp:  int(w.Extract(f.eb+f.fb-1, f.fb).U()),
		frac: w.Extract(f.fb-1, 0),
	}
}

// isNaN does not branch.
func (f format) isNaN(v value) bool { return vsym.And(v.exp == f.emax(), vsym.Not(v.frac.IsZero())) }

// isZeroOf tells zero (of either sign) from anything else.
func isZero(x *big.Float) bool { return x.Sign() == 0 }

func finite(x *big.Float) bool { return vsym.And(vsym.Not(x.IsInf()), vsym.Not(isZero(x))) }

// checkDecode states that x, nan is the decoding of v.
func (f format) checkDecode(x *big.Float, nan bool, v value) {
	vsym.ObsF("x", x)
	vsym.ObsB("nan", nan)
	vsym.Assert(nan == f.isNaN(v), "nan is reported exactly for the NaN patterns")
	vsym.Assert(x.Signbit() == v.neg, "the sign bit is kept")
	vsym.Assert(int(x.Prec()) == f.fb+1, "the precision is that of the format")
	vsym.Assert(x.Mode() == big.ToNearestEven, "the rounding mode is to nearest even")
	vsym.Assert(x.Acc() == big.Exact, "the accuracy is Exact")
	f.checkValue(x, v)
}

// checkValue states that the magnitude of x is that of v (zero for NaN).
func (f format) checkValue(x *big.Float, v value) {
	switch {
	case v.exp == f.emax():
		if v.frac.IsZero() {
			vsym.Reach("infinity")
			vsym.Assert(x.IsInf(), "an infinity decodes to an infinity")
		} else {
			vsym.Reach("nan")
			vsym.Assert(isZero(x), "a NaN is returned as zero")
		}
	case v.exp == 0:
		if v.frac.IsZero() {
			vsym.Reach("zero")
			vsym.Assert(isZero(x), "zero decodes to zero")
			return
		}
		vsym.Reach("subnormal")
		checkExact(x, v.frac, 1-f.bias()-f.fb)
	default:
		vsym.Reach("normal")
		vsym.Assert(finite(x), "a normal number is finite and non-zero")
		vsym.Assert(x.MantExp(nil) == v.exp-f.bias()+1, "the exponent is exact")
		one := vsym.WU(1, 1)
		vsym.Assert(vsym.Mant(x, f.fb+1).Eq(one.Concat(v.frac)), "the mantissa is exact")
		vsym.Assert(vsym.MantFits(x, f.fb+1), "the mantissa has no further bits")
	}
}

// checkExact states |x| = m * 2^lsb for a non-zero m.
func checkExact(x *big.Float, m vsym.W, lsb int) {
	vsym.Assert(finite(x), "a non-zero number is finite and non-zero")
	n := m.Clz()
	vsym.Assert(x.MantExp(nil) == lsb+m.Width()-n, "the exponent is exact")
	vsym.Assert(vsym.Mant(x, m.Width()).Eq(m.Shl(n)), "the mantissa is exact")
	vsym.Assert(vsym.MantFits(x, m.Width()), "the mantissa has no further bits")
}
