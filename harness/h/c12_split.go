package h

import (
	"math/big"

	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/zzverif/vsym"
)

// ---- C17: double-double to float64 and float32

// checkDDConv states that converting p gives the float nearest to the sum.
func (dst format) checkDDConv(p dd) {
	f := p.float()
	w := dst.eb + dst.fb
	if p.s.IsZero() {
		dst.checkConv(f, p.hneg, vsym.WU(w, 0), big.Exact)
		return
	}
	k := p.s.Clz()
	norm := p.s.Shl(k)
	// |sum| = norm/2^width * 2^exp
	be := p.lsb + p.s.Width() - k - 1 + dst.bias()
	switch {
	case vsym.Cut(be >= dst.emax()):
		dst.checkConv(f, p.neg, dst.infinity(), accuracy(true, true, p.neg))
	case vsym.Cut(be >= 1):
		want, acc := dst.nearest(p.neg, norm, be, true)
		dst.checkConv(f, p.neg, want, acc)
	case vsym.Cut(be < -dst.fb):
		dst.checkConv(f, p.neg, vsym.WU(w, 0), accuracy(true, false, p.neg))
	default:
		for i := -dst.fb; i <= 0; i++ {
			if be == i {
				want, acc := dst.nearest(p.neg, norm, i, false)
				dst.checkConv(f, p.neg, want, acc)
				return
			}
		}
		vsym.Assert(false, "harness: no exponent matches")
	}
}

// Conversion to float64: a sum of doubles is exact below the normal range.
func C17_Normal64()     { double.checkDDConv(ddNormal()) }
func C17_HighNormal64() { double.checkDDConv(ddHighNormal()) }
func C17_LowNormal64()  { double.checkDDConv(ddLowNormal()) }
func C17_Subnormal64()  { double.checkDDConv(ddSubnormal()) }
func C17_Zero64()       { double.checkDDConv(ddZero()) }
func C17_Special64()    { double.ddConvSpecial() }

// Conversion to float32.
func C17_Normal32() {
	d := pickDistance()
	checkDD32(d, 1023-126, 2046, true)
}

// C17_Cancel32: cancellation down to a subnormal or zero.
func C17_Cancel32() {
	var e int
	if vsym.Thorough() {
		e = vsym.Choose("e", 1023-125, 1023-70)
	} else {
		e = vsym.Pick("e", 1023-123, 1023-100, 1023-75)
	}
	checkDD32(vsym.Choose("d", -1, 1), e, e, false)
}

func C17_Subnormal32() {
	var d, e int
	if vsym.Thorough() {
		d = vsym.Choose("d", -60, 60)
		e = vsym.Choose("e", 1023-150-1, 1023-126)
	} else {
		d = vsym.Pick("d", 0, 1, 2, 25, 53, 54, 107, 800, -1, -2, -53, -54)
		e = vsym.Pick("e", 1023-151, 1023-150, 1023-149, 1023-148, 1023-140, 1023-127, 1023-126)
	}
	checkDD32(d, e, e, false)
}

func C17_Tiny32() {
	d := pickDistance()
	checkDD32(d, 1, 1023-150-2, false)
}

// checkDD32: the exponent of the larger part is in lo..hi.
func checkDD32(d, lo, hi int, normal bool) {
	if d >= 0 {
		lo = maxInt(lo, 1+d)
	} else {
		lo = maxInt(lo, 1-d)
	}
	if lo > hi {
		return
	}
	e := vsym.Int("eh", lo, hi)
	eh, el := e, e-d
	if d < 0 {
		eh, el = e+d, e
	}
	p := newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), normalMant("mh"), normalMant("ml"), eh, el, d)
	if normal {
		k := p.s.Clz()
		vsym.Assume(p.lsb+p.s.Width()-k-1+single.bias() >= 1)
	}
	single.checkDDConv(p)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func C17_HighNormal32() { single.checkDDConv(ddHighNormal()) }
func C17_LowNormal32()  { single.checkDDConv(ddLowNormal()) }
func C17_TinySub32()    { single.checkDDConv(ddSubnormal()) }
func C17_Zero32()       { single.checkDDConv(ddZero()) }
func C17_Special32()    { single.ddConvSpecial() }

func (dst format) ddConvSpecial() {
	hi, lo := ddSpecial()
	f := float128ppc.NewFromBits(hi, lo)
	if ddIsNaN(hi, lo) {
		vsym.Reach("nan")
		dst.checkConvNaN(f, hi>>63 != 0)
		return
	}
	vsym.Reach("infinity")
	neg := vsym.IteI(isInf64(hi), int(hi>>63), int(lo>>63)) != 0
	dst.checkConv(f, neg, dst.infinity(), big.Exact)
}

// ---- C12: double-double from big.Float

func ppcBits() int {
	if vsym.Thorough() {
		return 400
	}
	return 192
}

func checkPPC(x *big.Float, hneg bool, hi vsym.W, lneg bool, lo vsym.W, wantAcc big.Accuracy) {
	f, acc := float128ppc.NewFromBig(x)
	a, b := f.Bits()
	vsym.Obs("hi", a)
	vsym.Obs("lo", b)
	vsym.Obs("acc", uint64(uint8(acc)))
	h, l := vsym.WU(64, a), vsym.WU(64, b)
	vsym.Assert(h.Bit(63) == hneg, "the high part has the sign of the argument")
	vsym.Assert(h.Extract(62, 0).Eq(hi), "the high part is the nearest double")
	// The sign of a zero low part is not specified.
	vsym.Assert(l.Extract(62, 0).Eq(lo), "the low part is the double nearest to the remainder")
	vsym.Assert(vsym.Or(lo.IsZero(), l.Bit(63) == lneg), "the low part has the sign of the remainder")
	vsym.Assert(acc == wantAcc, "the accuracy is that of the sum")
}

func zero63() vsym.W { return vsym.WU(63, 0) }

// splitHigh rounds the argument 0.m * 2^exp, whose exponent field is be >= 1
// (normal), to the high part; r is the magnitude of the remainder in units of
// 2^(exp-bits), rneg its sign.
func splitHigh(neg bool, m vsym.W, be int) (hi, r vsym.W, rneg bool) {
	rw := m.Width() - 53
	hi, acc := double.nearest(neg, m, be, true)
	up := vsym.And(acc != big.Exact, (acc == big.Above) != neg)
	rest := m.Extract(rw-1, 0)
	return hi, vsym.IteW(up, vsym.WU(rw, 0).Sub(rest), rest), neg != up
}

// lead assumes that r has exactly k leading zeros and shifts them out.
func lead(r vsym.W, k int) vsym.W {
	if k > 0 {
		vsym.Assume(r.Extract(r.Width()-1, r.Width()-k).IsZero())
	}
	vsym.Assume(r.Bit(r.Width() - 1 - k))
	return r.Shl(k)
}

// pickLead gives the number of leading zeros of the remainder.
func pickLead() int {
	rw := ppcBits() - 53
	if vsym.Thorough() {
		return vsym.Choose("k", 0, rw-1)
	}
	return vsym.Pick("k", 0, 1, 2, 52, 53, 54, 86, rw-2, rw-1)
}

// C12_Exact: the argument is a double.
func C12_Exact() {
	be := vsym.Int("be", 1, 2046)
	x := vsym.Float("x", ppcBits(), be-1022)
	neg := x.Signbit()
	hi, r, _ := splitHigh(neg, vsym.Mant(x, ppcBits()), be)
	vsym.Assume(r.IsZero())
	vsym.Reach("exact")
	checkPPC(x, neg, hi, false, zero63(), big.Exact)
}

// C12_Overflow: the high part rounds up to infinity.
func C12_Overflow() {
	x := vsym.Float("x", ppcBits(), 1024)
	neg := x.Signbit()
	hi, _, _ := splitHigh(neg, vsym.Mant(x, ppcBits()), 2046)
	vsym.Assume(hi.Eq(double.infinity()))
	vsym.Reach("overflow")
	checkPPC(x, neg, hi, false, zero63(), accuracy(true, true, neg))
}

// C12_LowNormal: both parts are normal. The remainder has the exponent field
// be-53-k.
func C12_LowNormal() {
	k := pickLead()
	be := vsym.Int("be", 54+k, 2046)
	x := vsym.Float("x", ppcBits(), be-1022)
	neg := x.Signbit()
	hi, r, rneg := splitHigh(neg, vsym.Mant(x, ppcBits()), be)
	vsym.Assume(vsym.Not(hi.Eq(double.infinity())))
	lo, acc := double.nearest(rneg, lead(r, k), be-53-k, true)
	checkPPC(x, neg, hi, rneg, lo, acc)
}

// C12_LowSubnormal: the low part is subnormal, or rounds to or from zero.
func C12_LowSubnormal() {
	k := pickLead()
	var bl int
	if vsym.Thorough() {
		bl = vsym.Choose("bl", -52, 0)
	} else {
		bl = vsym.Pick("bl", -52, -51, -50, -26, -1, 0)
	}
	be := bl + 53 + k
	x := vsym.Float("x", ppcBits(), be-1022)
	neg := x.Signbit()
	hi, r, rneg := splitHigh(neg, vsym.Mant(x, ppcBits()), be)
	lo, acc := double.nearest(rneg, lead(r, k), bl, false)
	checkPPC(x, neg, hi, rneg, lo, acc)
}

// C12_LowZero: the remainder is below half the smallest subnormal.
func C12_LowZero() {
	k := pickLead()
	if k == 0 {
		return
	}
	be := vsym.Int("be", 1, k)
	x := vsym.Float("x", ppcBits(), be-1022)
	neg := x.Signbit()
	hi, r, rneg := splitHigh(neg, vsym.Mant(x, ppcBits()), be)
	lead(r, k)
	checkPPC(x, neg, hi, false, zero63(), accuracy(true, false, rneg))
}

// C12_Subnormal: the high part is subnormal or zero; the remainder is at most
// 2^-1075, so that the low part is zero.
func C12_Subnormal() {
	bits := 110
	var be int
	if vsym.Thorough() {
		be = vsym.Choose("be", -52, 0)
	} else {
		be = vsym.Pick("be", -52, -51, -27, 0)
	}
	x := vsym.Float("x", bits, be-1022)
	neg := x.Signbit()
	hi, acc := double.nearest(neg, vsym.Mant(x, bits), be, false)
	checkPPC(x, neg, hi, false, zero63(), acc)
}

func C12_Tiny() {
	exp := vsym.Int("exp", big.MinExp, -53-1022)
	x := vsym.Float("x", ppcBits(), exp)
	neg := x.Signbit()
	checkPPC(x, neg, zero63(), false, zero63(), accuracy(true, false, neg))
}

func C12_Huge() {
	exp := vsym.Int("exp", 1025, big.MaxExp)
	x := vsym.Float("x", ppcBits(), exp)
	neg := x.Signbit()
	checkPPC(x, neg, double.infinity(), false, zero63(), accuracy(true, true, neg))
}

func C12_Special() {
	inf := vsym.Choose("inf", 0, 1) == 1
	x := vsym.Special("x", inf)
	neg := x.Signbit()
	want := zero63()
	if inf {
		want = double.infinity()
	}
	checkPPC(x, neg, want, false, zero63(), big.Exact)
}
