package h

import (
	"math"
	"math/big"

	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

// toHW is the function under test: the bits of the hardware float (in the
// width of its format) and the accuracy.
type toHW func() (bits uint64, acc big.Accuracy)

func bits64(x float64, acc big.Accuracy) (uint64, big.Accuracy) { return math.Float64bits(x), acc }
func bits32(x float32, acc big.Accuracy) (uint64, big.Accuracy) {
	return uint64(math.Float32bits(x)), acc
}

// conv converts a half, quadruple or x86 number to float64 or float32.
type hwFloater interface {
	Float64() (float64, big.Accuracy)
	Float32() (float32, big.Accuracy)
}

func convert(f hwFloater, dst format) (neg bool, n vsym.W, acc big.Accuracy) {
	var bits uint64
	if dst.eb == 11 {
		bits, acc = bits64(f.Float64())
	} else {
		bits, acc = bits32(f.Float32())
	}
	w := vsym.WU(1+dst.eb+dst.fb, bits)
	return w.Bit(dst.eb + dst.fb), w.Extract(dst.eb+dst.fb-1, 0), acc
}

func (dst format) checkConv(f hwFloater, neg bool, want vsym.W, wantAcc big.Accuracy) {
	gotNeg, n, acc := convert(f, dst)
	vsym.Obs("n", n.U())
	vsym.Obs("acc", uint64(uint8(acc)))
	vsym.Assert(gotNeg == neg, "the sign is kept")
	vsym.Assert(n.Eq(want), "the result is the nearest float, ties to even")
	vsym.Assert(acc == wantAcc, "the accuracy is that of the result")
}

func (dst format) checkConvNaN(f hwFloater, neg bool) {
	gotNeg, n, acc := convert(f, dst)
	// The payload of a NaN is not specified.
	vsym.Assert(gotNeg == neg, "a NaN keeps its sign")
	vsym.Assert(vsym.Not(n.Ule(dst.infinity())), "a NaN gives a NaN")
	vsym.Assert(acc == big.Exact, "the accuracy of a NaN is Exact")
}

// maker builds a number of the source format from its fields.
type maker func(neg bool, exp int, frac vsym.W) hwFloater

func make16(neg bool, exp int, frac vsym.W) hwFloater {
	return binary16.NewFromBits(uint16(half.hwBits(neg, exp, frac.U())))
}

func make128(neg bool, exp int, frac vsym.W) hwFloater {
	a := format{15, 48}.hwBits(neg, exp, frac.Extract(111, 64).U())
	return binary128.NewFromBits(a, frac.Extract(63, 0).U())
}

func make80(neg bool, exp int, m vsym.W) hwFloater {
	return float80x86.NewFromBits(uint16(vsym.IteI(neg, 0x8000, 0)|exp), m.U())
}

// toNormal: normal numbers in both formats.
func (dst format) toNormal(mk maker, src format) {
	d := src.bias() - dst.bias()
	lo, hi := 1+d, dst.emax()-1+d
	if lo < 1 {
		lo = 1
	}
	if hi > src.emax()-1 {
		hi = src.emax() - 1
	}
	exp := vsym.Int("exp", lo, hi)
	neg, frac := vsym.Bool("neg"), vsym.Wide("frac", src.fb)
	want, acc := dst.nearest(neg, vsym.WU(1, 1).Concat(frac), exp-d, true)
	dst.checkConv(mk(neg, exp, frac), neg, want, acc)
}

// toSubnormal: normal source numbers with a subnormal result (or just below).
func (dst format) toSubnormal(mk maker, src format) {
	d := src.bias() - dst.bias()
	be := vsym.Choose("be", -dst.fb, 0)
	neg, frac := vsym.Bool("neg"), vsym.Wide("frac", src.fb)
	want, acc := dst.nearest(neg, vsym.WU(1, 1).Concat(frac), be, false)
	dst.checkConv(mk(neg, be+d, frac), neg, want, acc)
}

// toTiny: source numbers below half the smallest subnormal.
func (dst format) toTiny(mk maker, src format) {
	d := src.bias() - dst.bias()
	exp := vsym.Int("exp", 0, d-dst.fb-1)
	neg, frac := vsym.Bool("neg"), vsym.Wide("frac", src.fb)
	vsym.Assume(vsym.Or(exp != 0, vsym.Not(frac.IsZero())))
	dst.checkConv(mk(neg, exp, frac), neg, vsym.WU(dst.eb+dst.fb, 0), accuracy(true, false, neg))
}

// toHuge: source numbers that overflow whatever their fraction.
func (dst format) toHuge(mk maker, src format) {
	d := src.bias() - dst.bias()
	exp := vsym.Int("exp", dst.emax()+d, src.emax()-1)
	neg, frac := vsym.Bool("neg"), vsym.Wide("frac", src.fb)
	dst.checkConv(mk(neg, exp, frac), neg, dst.infinity(), accuracy(true, true, neg))
}

// toUp: subnormal source numbers that are normal in the destination.
func (dst format) toUp(mk maker, src format) {
	d := src.bias() - dst.bias()
	neg, frac := vsym.Bool("neg"), vsym.Wide("frac", src.fb)
	vsym.Assume(vsym.Not(frac.IsZero()))
	k := frac.Clz()
	want, acc := dst.nearest(neg, frac.Shl(k), -k-d, true)
	dst.checkConv(mk(neg, 0, frac), neg, want, acc)
}

// toSpecial: zeros, infinities and NaNs.
func (dst format) toSpecial(mk maker, src format) {
	neg := vsym.Bool("neg")
	zero := vsym.WU(src.fb, 0)
	switch vsym.Choose("kind", 0, 2) {
	case 0:
		vsym.Reach("zero")
		dst.checkConv(mk(neg, 0, zero), neg, vsym.WU(dst.eb+dst.fb, 0), big.Exact)
	case 1:
		vsym.Reach("infinity")
		dst.checkConv(mk(neg, src.emax(), zero), neg, dst.infinity(), big.Exact)
	default:
		vsym.Reach("nan")
		frac := vsym.Wide("frac", src.fb)
		vsym.Assume(vsym.Not(frac.IsZero()))
		dst.checkConvNaN(mk(neg, src.emax(), frac), neg)
	}
}

// C14: binary16 to float64 and float32.
func C14_Normal64()  { double.toNormal(make16, half) }
func C14_Up64()      { double.toUp(make16, half) }
func C14_Special64() { double.toSpecial(make16, half) }
func C14_Normal32()  { single.toNormal(make16, half) }
func C14_Up32()      { single.toUp(make16, half) }
func C14_Special32() { single.toSpecial(make16, half) }

// C15: binary128 to float64 and float32.
func C15_Normal64()    { double.toNormal(make128, quad) }
func C15_Subnormal64() { double.toSubnormal(make128, quad) }
func C15_Tiny64()      { double.toTiny(make128, quad) }
func C15_Huge64()      { double.toHuge(make128, quad) }
func C15_Special64()   { double.toSpecial(make128, quad) }
func C15_Normal32()    { single.toNormal(make128, quad) }
func C15_Subnormal32() { single.toSubnormal(make128, quad) }
func C15_Tiny32()      { single.toTiny(make128, quad) }
func C15_Huge32()      { single.toHuge(make128, quad) }
func C15_Special32()   { single.toSpecial(make128, quad) }

// x86To: finite non-zero x86 extended numbers, m = 0.1f * 2^k.
func (dst format) x86To(region int) {
	neg, m := vsym.Bool("neg"), vsym.Wide("m", 64)
	vsym.Assume(vsym.Not(m.IsZero()))
	k := m.Clz()
	norm := m.Shl(k)
	// |x| = norm/2^64 * 2^(e-16382-k), e the exponent field or 1
	d := 16383 - dst.bias() + k // be = e - d
	switch region {
	case 0:
		exp := vsym.Int("exp", 1+d, dst.emax()-1+d)
		want, acc := dst.nearest(neg, norm, exp-d, true)
		dst.checkConv(make80(neg, exp, m), neg, want, acc)
	case 1:
		be := vsym.Choose("be", -dst.fb, 0)
		want, acc := dst.nearest(neg, norm, be, false)
		dst.checkConv(make80(neg, be+d, m), neg, want, acc)
	case 2:
		exp := vsym.Int("exp", 0, d-dst.fb-1)
		dst.checkConv(make80(neg, exp, m), neg, vsym.WU(dst.eb+dst.fb, 0), accuracy(true, false, neg))
	default:
		exp := vsym.Int("exp", dst.emax()+d, 0x7FFE)
		dst.checkConv(make80(neg, exp, m), neg, dst.infinity(), accuracy(true, true, neg))
	}
}

func (dst format) x86Special() {
	neg := vsym.Bool("neg")
	switch vsym.Choose("kind", 0, 2) {
	case 0:
		vsym.Reach("zero")
		exp := vsym.Int("exp", 0, 0x7FFE)
		dst.checkConv(make80(neg, exp, vsym.WU(64, 0)), neg, vsym.WU(dst.eb+dst.fb, 0), big.Exact)
	case 1:
		vsym.Reach("infinity")
		dst.checkConv(make80(neg, 0x7FFF, vsym.WU(64, 1<<63)), neg, dst.infinity(), big.Exact)
	default:
		vsym.Reach("nan")
		m := vsym.U64("m")
		vsym.Assume(m != 1<<63)
		dst.checkConvNaN(make80(neg, 0x7FFF, vsym.WU(64, m)), neg)
	}
}

// C16: x86 extended to float64 and float32.
func C16_Normal64()    { double.x86To(0) }
func C16_Subnormal64() { double.x86To(1) }
func C16_Tiny64()      { double.x86To(2) }
func C16_Huge64()      { double.x86To(3) }
func C16_Special64()   { double.x86Special() }
func C16_Normal32()    { single.x86To(0) }
func C16_Subnormal32() { single.x86To(1) }
func C16_Tiny32()      { single.x86To(2) }
func C16_Huge32()      { single.x86To(3) }
func C16_Special32()   { single.x86Special() }
