import sys; sys.path.insert(0,'/tmp/plant')
from plant import *
sel=sys.argv[1:]
def P(id,*a):
    if not sel or id in sel: plant(id,*a)
HEAD='''package main

import (
	"fmt"
	"math"
	"math/big"
	"os"

	"github.com/mewmew/float/%s"
)

var _ = math.Inf
var _ = big.Exact

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf(f+"\\n", a...)
		os.Exit(1)
	}
}

func main() {
'''
def D(pkg, body): return HEAD%pkg+body.strip('\n')+'\n}\n'
H="binary16/binary16.go";Q="binary128/binary128.go";X="float80x86/float80x86.go";PP="float128ppc/float128ppc.go";B="bfloat/bfloat.go"

P('bfloat-subnormal-exponent','C02','a bfloat16 subnormal pattern (exponent field 0, fraction non-zero)',
 'the decoded value of every subnormal is half of what it should be: the exponent of the smallest binade is computed from the bias like that of a normal number',
 [(B,'		lead = 0\n		exponent = -126\n','		lead = 0\n')],
 D('bfloat','''
	x, _ := bfloat.NewFromBits(0x0001).Big()
	want := math.Ldexp(1, -133)
	got, _ := x.Float64()
	check(got == want, "0x0001 decodes to %g, want %g", got, want)
'''))
P('x86-lead-from-exponent','C04','an unnormal (exponent field non-zero, integer bit clear) or a pseudo-denormal (exponent field zero, integer bit set)',
 'the integer bit is derived from the exponent as in the IEEE formats, so that the decoded value of unnormals and pseudo-denormals is wrong',
 [(X,'	return int(f.m >> 63)\n','	if f.Exp() == 0 {\n		return 0\n	}\n	return 1\n')],
 D('float80x86','''
	x, nan := float80x86.NewFromBits(0x4000, 0x4000000000000000).Big()
	got, _ := x.Float64()
	check(!nan && got == 1, "unnormal decodes to %g, want 1", got)
'''))
P('x86-zero-by-fraction','C04','exponent field zero with significand exactly 0x8000000000000000 (a pseudo-denormal with an empty fraction)',
 'the zero test looks at the fraction without the integer bit, so that the pseudo-denormal 2^-16382 decodes to zero',
 [(X,'		if f.m == 0 {\n','		if f.Frac() == 0 {\n')],
 D('float80x86','''
	x, _ := float80x86.NewFromBits(0x0000, 0x8000000000000000).Big()
	check(x.Sign() > 0 && x.MantExp(nil) == -16381, "pseudo-denormal decodes to %v", x)
'''))
P('quad-nan-low-half','C03','a NaN whose fraction is non-zero only in the low 64 bits',
 'the infinity test looks at the high half of the fraction only: such a NaN decodes as an infinity',
 [(Q,'		// Inf or NaN\n		if frac1 == 0 && frac2 == 0 {\n','		// Inf or NaN\n		if frac1 == 0 {\n')],
 D('binary128','''
	_, nan := binary128.NewFromBits(0x7FFF000000000000, 1).Big()
	check(nan, "NaN with payload 1 is not decoded as NaN")
'''))
P('quad-subnormal-mask','C08','a subnormal result whose fraction has bit 64 set',
 'the mask of the high fraction half starts one bit too late on the subnormal path, which loses bit 64',
 [(Q,'''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA''','''		maskA := big.NewInt(0)
		for i := 65; i < 112; i++ {
			maskA''')],
 D('binary128','''
	x := new(big.Float).SetMantExp(big.NewFloat(1), -16494+64)
	f, acc := binary128.NewFromBig(x)
	a, b := f.Bits()
	check(a == 1 && b == 0 && acc == big.Exact, "2^(-16494+64) encodes to %#x %#x (%v)", a, b, acc)
'''))
P('half-float32-accuracy','C07','a float32 that is not exactly representable in half precision',
 'the accuracy of NewFromFloat32 is that of converting the result back, which is always Exact',
 [(H,'''	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
	return f, acc
''','''	f, _ := NewFromFloat64(float64(x))
	_, acc := f.Float32()
	return f, acc
''')],
 D('binary16','''
	f, acc := binary16.NewFromFloat32(0.1)
	check(f.Bits() == 0x2e66 && acc == big.Below, "0.1 encodes to %#x (%v)", f.Bits(), acc)
'''))
P('x86-float32-direct','C11','a subnormal float32',
 'NewFromFloat32 builds the number from the bits of the float32 directly and forgets to normalise subnormals: the value is wrong and not canonical',
 [(X,'''	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
	return f, acc
''','''	bits := math.Float32bits(x)
	exp := int(bits >> 23 & 0xFF)
	if exp == 0xFF || bits<<1 == 0 {
		return NewFromFloat64(float64(x))
	}
	// Every finite float32 is a normalized x86 extended precision value.
	se := uint16(bits>>16)&0x8000 | uint16(exp-127+bias)
	return Float{se: se, m: 1<<63 | uint64(bits&0x7FFFFF)<<40}, big.Exact
''')],
 D('float80x86','''
	f, acc := float80x86.NewFromFloat32(math.SmallestNonzeroFloat32)
	se, m := f.Bits()
	check(int(se) == 16383-149 && m == 1<<63 && acc == big.Exact, "2^-149 encodes to %#x %#x (%v)", se, m, acc)
'''))
P('ppc-low-from-difference','C13','an infinite float64',
 'the low part is computed as x - x, which is NaN for an infinity: the number built from +Inf is NaN',
 [(PP,'	r := Float{high: x, low: 0}\n','	r := Float{high: x, low: x - x}\n')],
 D('float128ppc','''
	f, acc := float128ppc.NewFromFloat64(math.Inf(1))
	a, b := f.Bits()
	check(a == math.Float64bits(math.Inf(1)) && b == 0 && acc == big.Exact, "+Inf encodes to %#x %#x", a, b)
'''))
P('ppc-zero-sum-sign','C05','two non-zero parts that cancel, with the high part negative',
 'the sign of the high part is kept only when the high part itself is a zero: -1 + 1 decodes to +0',
 [(PP,'	if x.Cmp(zero) == 0 && math.Signbit(f.high) {\n','	if x.Cmp(zero) == 0 && f.high == 0 && math.Signbit(f.high) {\n')],
 D('float128ppc','''
	x, nan := float128ppc.NewFromBits(0xBFF0000000000000, 0x3FF0000000000000).Big()
	check(!nan && x.Sign() == 0 && x.Signbit(), "-1 + 1 decodes to %v", x)
'''))
P('ppc-low-precision','C12','a remainder that does not fit into 53 bits, or whose nearest double is subnormal',
 'the remainder is rounded to 53 bits before it becomes the low part: the accuracy is lost and subnormal low parts are rounded twice',
 [(PP,'	l.Sub(x, h)\n','	l.SetPrec(53).Sub(x, h)\n')],
 D('float128ppc','''
	x, _, err := big.ParseFloat("0x1.000000000000000000000000000000000000000001p0", 0, 300, big.ToNearestEven)
	check(err == nil, "%v", err)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -60))
	_, acc := float128ppc.NewFromBig(x)
	check(acc == big.Below, "accuracy %v, want Below", acc)
'''))
P('quad-round-first','C08','an argument of more than 113 bits whose result is subnormal and whose first rounding lands on a tie',
 'the mantissa is rounded to 113 bits before the subnormal rounding (double rounding); only the accuracy of the second rounding is reported',
 [(Q,'	exponent := x.MantExp(mant)\n','	exponent := mant.Set(x).MantExp(mant)\n')],
 D('binary128','''
	// 2^-16494 * (1/2 + 2^-200): rounds up to the smallest subnormal.
	x := new(big.Float).SetMantExp(big.NewFloat(1), -16495)
	x.SetPrec(300)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -16694))
	f, acc := binary128.NewFromBig(x)
	a, b := f.Bits()
	check(a == 0 && b == 1 && acc == big.Above, "encodes to %#x %#x (%v)", a, b, acc)
'''))
P('quad-float32-double-rounding','C15','a quadruple precision number whose rounding to float64 lands on the midpoint of two float32 values, or which is inexact only in the second step',
 'Float32 goes through float64: double rounding, and the accuracy is that of the first step',
 [(Q,'	return x.Float32()\n','	y, acc := x.Float64()\n	return float32(y), acc\n')],
 D('binary128','''
	// 1 + 2^-24 + 2^-100 rounds up to 1 + 2^-23.
	f := binary128.NewFromBits(0x3FFF000001000000, 1<<12)
	y, acc := f.Float32()
	check(y == 1+1.0/(1<<23) && acc == big.Above, "%v (%v)", y, acc)
'''))
P('x86-nan-sign','C16','a NaN with the sign bit set, converted to float32',
 'the sign of a NaN is dropped by Float32',
 [(X,'''		if x.Signbit() {
			return float32(-math.NaN()), big.Exact
		}
		return float32(math.NaN()), big.Exact
''','''		return float32(math.NaN()), big.Exact
''')],
 D('float80x86','''
	// (The sign bit of -math.NaN() is the compiler's business; see whatever the
	// package says about its own negative NaN.)
	y, _ := float80x86.NewFromBits(0xFFFF, 0xC000000000000001).Float32()
	z, _ := float80x86.NewFromBits(0x7FFF, 0xC000000000000001).Float32()
	check(math.Signbit(float64(y)) && !math.Signbit(float64(z)), "sign bits %v %v", y, z)
'''))
P('half-mantissa-alias','C20','an argument with more than 11 significant bits, inspected after the call',
 'the mantissa is a struct copy of the argument, which shares its words: rounding it in place changes the value of the argument',
 [(H,'	mant := new(big.Float)\n	exponent := x.MantExp(mant)\n','	mant := copyOf(x)\n	exponent := x.MantExp(mant)\n'),
  (H,'// Bits returns the IEEE 754 half','''// copyOf returns a copy of x.
func copyOf(x *big.Float) *big.Float {
	y := *x
	return &y
}

// Bits returns the IEEE 754 half''')],
 D('binary16','''
	x := big.NewFloat(math.Pi)
	binary16.NewFromBig(x)
	check(x.Cmp(big.NewFloat(math.Pi)) == 0, "argument changed to %v", x)
'''))
P('bfloat-shared-zero','C20','two zeros (or a zero and a NaN) decoded, the first result modified in between',
 'zeros are returned through a package-level value instead of a fresh one',
 [(B,'''			if signbit {
				x.Neg(x)
			}
			return x, false
		}
		// Denorm''','''			if signbit {
				x.Neg(x)
				return x, false
			}
			return positiveZero, false
		}
		// Denorm'''),
  (B,'func NewFromBits(','''// positiveZero is the multi-precision representation of zero.
var positiveZero = new(big.Float).SetPrec(precision)

func NewFromBits(''')],
 D('bfloat','''
	x, _ := bfloat.NewFromBits(0).Big()
	x.SetInt64(7)
	y, _ := bfloat.NewFromBits(0).Big()
	check(y.Sign() == 0, "zero decodes to %v", y)
'''))
P('x86-bounded-work','C10','an argument of more than 96 bits whose first 96 bits, rounded, end on a tie; or with another rounding mode than to nearest even',
 'mantissas are shortened to 96 bits before they are rounded to 64 (double rounding, in the rounding mode of the argument; inexactness of the first step is not reported)',
 [(X,'	exponent := x.MantExp(mant)\n','''	exponent := x.MantExp(mant)
	if mant.Prec() > 96 {
		// more bits than this do not matter.
		mant.SetPrec(96)
	}
''')],
 D('float80x86','''
	x := new(big.Float).SetPrec(200).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -64))
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -150))
	f, acc := float80x86.NewFromBig(x)
	se, m := f.Bits()
	check(se == 0x3FFF && m == 0x8000000000000001 && acc == big.Above, "encodes to %#x %#x (%v)", se, m, acc)
'''))
P('ppc-bits-negative-zero','C18','a double-double pattern whose low part is negative zero',
 'NewFromBits normalises a zero low part to positive zero, so that the pattern does not survive',
 [(PP,'	low := math.Float64frombits(b)\n','	low := math.Float64frombits(b)\n	if low == 0 {\n		low = 0\n	}\n')],
 D('float128ppc','''
	a, b := float128ppc.NewFromBits(0x3FF0000000000000, 1<<63).Bits()
	check(a == 0x3FF0000000000000 && b == 1<<63, "bits %#x %#x", a, b)
'''))
P('half-float32-bits','C14','a half precision subnormal whose fraction is not a power of two',
 'Float32 converts by bit manipulation and shifts the fraction of a subnormal by its length, but does not remove the leading bit',
 [(H,'''	x, nan := f.Big()
	if nan {
		if x.Signbit() {
			return float32(-math.NaN()), big.Exact
		}
		return float32(math.NaN()), big.Exact
	}
	return x.Float32()
''','''	x, nan := f.Big()
	if nan {
		if x.Signbit() {
			return float32(-math.NaN()), big.Exact
		}
		return float32(math.NaN()), big.Exact
	}
	if f.Exp() == 0 && f.Frac() != 0 {
		// Denormalized half precision values are normalized float32 values.
		frac, exp := uint32(f.Frac()), uint32(127-bias+1)
		for frac&0x400 == 0 {
			frac <<= 1
			exp--
		}
		return math.Float32frombits(uint32(f.bits&0x8000)<<16 | exp<<23 | frac&0x1FF<<13), big.Exact
	}
	return x.Float32()
''')],
 D('binary16','''
	y, acc := binary16.NewFromBits(0x0003).Float32()
	check(y == 3.0/(1<<24) && acc == big.Exact, "0x0003 converts to %g (%v)", y, acc)
'''))
