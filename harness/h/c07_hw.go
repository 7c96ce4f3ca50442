package h

import (
	"math"
	"math/big"

	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

// hwEncoder is the function under test, given the bits of a hardware float.
type hwEncoder func(bits uint64) (neg bool, n vsym.W, acc big.Accuracy)

func fields16(f binary16.Float) (bool, vsym.W) {
	w := vsym.WU(16, uint64(f.Bits()))
	return w.Bit(15), w.Extract(14, 0)
}

func fields128(f binary128.Float) (bool, vsym.W) {
	a, b := f.Bits()
	w := vsym.WU(64, a).Concat(vsym.WU(64, b))
	return w.Bit(127), w.Extract(126, 0)
}

func fields80(f float80x86.Float) (bool, vsym.W) {
	se, m := f.Bits()
	vsym.Obs("se", uint64(se))
	vsym.Obs("m", m)
	exp := se & 0x7FFF
	vsym.Assert((m>>63 != 0) == (exp != 0), "the integer bit is set exactly for normal numbers")
	return se>>15 != 0, vsym.WU(15, uint64(exp)).Concat(vsym.WU(63, m))
}

func f64to16(b uint64) (bool, vsym.W, big.Accuracy) {
	f, acc := binary16.NewFromFloat64(math.Float64frombits(b))
	neg, n := fields16(f)
	return neg, n, acc
}

func f32to16(b uint64) (bool, vsym.W, big.Accuracy) {
	f, acc := binary16.NewFromFloat32(math.Float32frombits(uint32(b)))
	neg, n := fields16(f)
	return neg, n, acc
}

func f64to128(b uint64) (bool, vsym.W, big.Accuracy) {
	f, acc := binary128.NewFromFloat64(math.Float64frombits(b))
	neg, n := fields128(f)
	return neg, n, acc
}

func f32to128(b uint64) (bool, vsym.W, big.Accuracy) {
	f, acc := binary128.NewFromFloat32(math.Float32frombits(uint32(b)))
	neg, n := fields128(f)
	return neg, n, acc
}

func f64to80(b uint64) (bool, vsym.W, big.Accuracy) {
	f, acc := float80x86.NewFromFloat64(math.Float64frombits(b))
	neg, n := fields80(f)
	return neg, n, acc
}

func f32to80(b uint64) (bool, vsym.W, big.Accuracy) {
	f, acc := float80x86.NewFromFloat32(math.Float32frombits(uint32(b)))
	neg, n := fields80(f)
	return neg, n, acc
}

// hwBits assembles a hardware float from its fields.
func (src format) hwBits(neg bool, exp int, frac uint64) uint64 {
	s := uint64(vsym.IteI(neg, 1, 0))
	return s<<uint(src.eb+src.fb) | uint64(exp)<<uint(src.fb) | frac
}

func (src format) fraction() uint64 {
	f := vsym.U64("frac")
	vsym.Assume(f < 1<<uint(src.fb))
	return f
}

func (dst format) checkHW(enc hwEncoder, src format, neg bool, exp int, frac uint64, want vsym.W, wantAcc big.Accuracy) {
	gotNeg, n, acc := enc(src.hwBits(neg, exp, frac))
	vsym.Obs("lo", n.U())
	vsym.Obs("acc", uint64(uint8(acc)))
	vsym.Assert(gotNeg == neg, "the sign is kept")
	vsym.Assert(n.Eq(want), "the encoding is the nearest one, ties to even")
	vsym.Assert(acc == wantAcc, "the accuracy is that of the encoding")
}

// hwNormal: source numbers that are normal in both formats.
func (dst format) hwNormal(enc hwEncoder, src format) {
	d := src.bias() - dst.bias()
	lo, hi := 1+d, dst.emax()-1+d
	if lo < 1 {
		lo = 1
	}
	if hi > src.emax()-1 {
		hi = src.emax() - 1
	}
	exp := vsym.Int("exp", lo, hi)
	neg, frac := vsym.Bool("neg"), src.fraction()
	m := vsym.WU(src.fb+1, frac|1<<uint(src.fb))
	want, acc := dst.nearest(neg, m, exp-d, true)
	dst.checkHW(enc, src, neg, exp, frac, want, acc)
}

// hwDown: normal source numbers below the normal range of the destination.
func (dst format) hwDown(enc hwEncoder, src format) {
	d := src.bias() - dst.bias()
	be := vsym.Choose("be", -dst.fb, 0)
	neg, frac := vsym.Bool("neg"), src.fraction()
	m := vsym.WU(src.fb+1, frac|1<<uint(src.fb))
	want, acc := dst.nearest(neg, m, be, false)
	dst.checkHW(enc, src, neg, be+d, frac, want, acc)
}

// hwTiny: source numbers below half the smallest subnormal of the
// destination, source subnormals included.
func (dst format) hwTiny(enc hwEncoder, src format) {
	d := src.bias() - dst.bias()
	exp := vsym.Int("exp", 0, d-dst.fb-1)
	neg, frac := vsym.Bool("neg"), src.fraction()
	vsym.Assume(vsym.Or(exp != 0, frac != 0))
	dst.checkHW(enc, src, neg, exp, frac, vsym.WU(dst.eb+dst.fb, 0), accuracy(true, false, neg))
}

// hwHuge: finite source numbers that overflow whatever their fraction.
func (dst format) hwHuge(enc hwEncoder, src format) {
	d := src.bias() - dst.bias()
	exp := vsym.Int("exp", dst.emax()+d, src.emax()-1)
	neg, frac := vsym.Bool("neg"), src.fraction()
	dst.checkHW(enc, src, neg, exp, frac, dst.infinity(), accuracy(true, true, neg))
}

// hwUp: subnormal source numbers that are normal in the destination.
func (dst format) hwUp(enc hwEncoder, src format) {
	d := src.bias() - dst.bias()
	neg, frac := vsym.Bool("neg"), src.fraction()
	vsym.Assume(frac != 0)
	m := vsym.WU(src.fb, frac)
	k := m.Clz()
	want, acc := dst.nearest(neg, m.Shl(k), -k-d, true)
	dst.checkHW(enc, src, neg, 0, frac, want, acc)
}

// hwSpecial: zeros, infinities and NaNs.
func (dst format) hwSpecial(enc hwEncoder, src format, nan func(neg bool) (bool, vsym.W)) {
	neg := vsym.Bool("neg")
	switch vsym.Choose("kind", 0, 2) {
	case 0:
		vsym.Reach("zero")
		dst.checkHW(enc, src, neg, 0, 0, vsym.WU(dst.eb+dst.fb, 0), big.Exact)
	case 1:
		vsym.Reach("infinity")
		dst.checkHW(enc, src, neg, src.emax(), 0, dst.infinity(), big.Exact)
	default:
		vsym.Reach("nan")
		frac := src.fraction()
		vsym.Assume(frac != 0)
		nanNeg, n := nan(neg)
		vsym.Assert(nanNeg == neg, "the package's NaN has the right sign")
		vsym.Assert(vsym.Not(n.Ule(dst.infinity())), "the package's NaN is a NaN")
		dst.checkHW(enc, src, neg, src.emax(), frac, n, big.Exact)
	}
}

func nan16(neg bool) (bool, vsym.W) {
	if neg {
		return fields16(binary16.NegNaN)
	}
	return fields16(binary16.NaN)
}

func nan128(neg bool) (bool, vsym.W) {
	if neg {
		return fields128(binary128.NegNaN)
	}
	return fields128(binary128.NaN)
}

func nan80(neg bool) (bool, vsym.W) {
	if neg {
		return fields80(float80x86.NegNaN)
	}
	return fields80(float80x86.NaN)
}

// C07: binary16 from float64 and float32.
func C07_Normal64()  { half.hwNormal(f64to16, double) }
func C07_Down64()    { half.hwDown(f64to16, double) }
func C07_Tiny64()    { half.hwTiny(f64to16, double) }
func C07_Huge64()    { half.hwHuge(f64to16, double) }
func C07_Special64() { half.hwSpecial(f64to16, double, nan16) }
func C07_Normal32()  { half.hwNormal(f32to16, single) }
func C07_Down32()    { half.hwDown(f32to16, single) }
func C07_Tiny32()    { half.hwTiny(f32to16, single) }
func C07_Huge32()    { half.hwHuge(f32to16, single) }
func C07_Special32() { half.hwSpecial(f32to16, single, nan16) }

// C09: binary128 from float64 and float32.
func C09_Normal64()  { quad.hwNormal(f64to128, double) }
func C09_Up64()      { quad.hwUp(f64to128, double) }
func C09_Special64() { quad.hwSpecial(f64to128, double, nan128) }
func C09_Normal32()  { quad.hwNormal(f32to128, single) }
func C09_Up32()      { quad.hwUp(f32to128, single) }
func C09_Special32() { quad.hwSpecial(f32to128, single, nan128) }

// C11: x86 extended from float64 and float32.
func C11_Normal64()  { x86.hwNormal(f64to80, double) }
func C11_Up64()      { x86.hwUp(f64to80, double) }
func C11_Special64() { x86.hwSpecial(f64to80, double, nan80) }
func C11_Normal32()  { x86.hwNormal(f32to80, single) }
func C11_Up32()      { x86.hwUp(f32to80, single) }
func C11_Special32() { x86.hwSpecial(f32to80, single, nan80) }

// C13: double-double from float64 and float32.
func C13_From64() {
	b := vsym.U64("bits")
	f, acc := float128ppc.NewFromFloat64(math.Float64frombits(b))
	checkPPCFrom(f, acc, b)
}

func C13_From32() {
	b := vsym.U32("bits")
	x := math.Float32frombits(b)
	f, acc := float128ppc.NewFromFloat32(x)
	checkPPCFrom(f, acc, math.Float64bits(float64(x)))
}

func checkPPCFrom(f float128ppc.Float, acc big.Accuracy, b uint64) {
	hi, lo := f.Bits()
	vsym.Obs("hi", hi)
	vsym.Obs("lo", lo)
	vsym.Obs("acc", uint64(uint8(acc)))
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
	if b&(1<<63-1) > 0x7FF<<52 {
		vsym.Reach("nan")
		v := float128ppc.NaN
		if b>>63 != 0 {
			v = float128ppc.NegNaN
		}
		h, l := v.Bits()
		vsym.Assert(vsym.And(hi == h, lo == l), "a NaN becomes the package's NaN of the same sign")
		vsym.Assert(vsym.And(hi&(1<<63-1) > 0x7FF<<52, hi>>63 == b>>63), "a NaN stays a NaN of the same sign")
		return
	}
	vsym.Reach("number")
	vsym.Assert(hi == b, "the high part is the argument")
	vsym.Assert(lo == 0, "the low part is positive zero")
}
