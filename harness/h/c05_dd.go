package h

import (
	"math/big"

	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/zzverif/vsym"
)

// dd is a pair of finite doubles, not both zero unless stated: their exact sum
// is s * 2^lsb with the sign neg (that of the high part when it is zero).
type dd struct {
	hi, lo     uint64
	hneg, lneg bool
	neg        bool
	s          vsym.W
	lsb        int
}

func (p dd) float() float128ppc.Float { return float128ppc.NewFromBits(p.hi, p.lo) }

// newDD pairs (-1)^hneg * mh * 2^(eh-1075) with (-1)^lneg * ml * 2^(el-1075),
// where eh-el = d is concrete and mh, ml have 53 bits.
func newDD(hneg, lneg bool, mh, ml vsym.W, eh, el, d int) dd {
	p := dd{hneg: hneg, lneg: lneg}
	p.hi = packDouble(hneg, eh, mh)
	p.lo = packDouble(lneg, el, ml)
	n := d
	if n < 0 {
		n = -n
	}
	a, b := mh.Zext(54+n), ml.Zext(54+n)
	if d >= 0 {
		a = a.Shl(n)
		p.lsb = el - 1075
	} else {
		b = b.Shl(n)
		p.lsb = eh - 1075
	}
	switch {
	case vsym.Cut(hneg == lneg):
		p.s, p.neg = a.Add(b), hneg
	case vsym.Cut(b.Ule(a)):
		p.s, p.neg = a.Sub(b), hneg
	default:
		p.s, p.neg = b.Sub(a), lneg
	}
	return p
}

// packDouble gives the bits of a double from its 53-bit significand; a clear
// lead bit (with exp 1) makes a subnormal.
func packDouble(neg bool, exp int, m vsym.W) uint64 {
	e := vsym.IteI(m.Bit(52), exp, 0)
	return double.hwBits(neg, e, m.Extract(51, 0).U())
}

func normalMant(name string) vsym.W { return vsym.WU(1, 1).Concat(vsym.Wide(name, 52)) }

func subnormalMant(name string) vsym.W {
	m := vsym.WU(1, 0).Concat(vsym.Wide(name, 52))
	vsym.Assume(vsym.Not(m.IsZero()))
	return m
}

// distances between the exponents of two normal doubles.
func pickDistance() int {
	if vsym.Thorough() {
		return vsym.Choose("d", -2045, 2045)
	}
	switch vsym.Choose("far", 0, 2) {
	case 0:
		return vsym.Choose("d", -130, 130)
	case 1:
		return vsym.Pick("d", 255, 256, 500, 511, 512, 1000, 1022, 1023, 1024, 1500, 2000, 2043, 2044, 2045)
	}
	return vsym.Pick("d", -255, -256, -500, -512, -1000, -1022, -1023, -1024, -2000, -2043, -2044, -2045)
}

// ddNormal: two normal doubles.
func ddNormal() dd {
	d := pickDistance()
	lo, hi := 1, 2046
	if d > 0 {
		lo += d
	} else {
		hi += d
	}
	eh := vsym.Int("eh", lo, hi)
	return newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), normalMant("mh"), normalMant("ml"), eh, eh-d, d)
}

// ddHighNormal, ddLowNormal: a normal and a subnormal double.
func pickSubDistance() int {
	if vsym.Thorough() {
		return vsym.Pick("d", 0, 1, 2, 3, 4, 10, 25, 26, 27, 50, 51, 52, 53, 54, 55, 56, 63, 64, 65, 66, 100, 105, 106, 107, 108, 109, 127, 128, 129, 255, 256, 500, 511, 512,
			1000, 1021, 1022, 1023, 1024, 1500, 2000, 2040, 2043, 2044, 2045)
	}
	return vsym.Pick("d", 0, 1, 2, 52, 53, 54, 106, 107, 1023, 2045)
}

func ddHighNormal() dd {
	d := pickSubDistance()
	return newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), normalMant("mh"), subnormalMant("ml"), 1+d, 1, d)
}

func ddLowNormal() dd {
	d := pickSubDistance()
	return newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), subnormalMant("mh"), normalMant("ml"), 1, 1+d, -d)
}

// ddSubnormal: two subnormal doubles.
func ddSubnormal() dd {
	mh := subnormalMant("mh")
	if !vsym.Thorough() {
		n := vsym.Pick("lead", 1, 2, 27, 52)
		vsym.Assume(vsym.And(mh.Bit(52-n), mh.Extract(52, 52-n+1).IsZero()))
	}
	return newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), mh, subnormalMant("ml"), 1, 1, 0)
}

// ddZero: one part (or both) is a zero of either sign.
func ddZero() dd {
	e := vsym.Int("e", 1, 2046)
	m := vsym.Wide("m", 53)
	vsym.Assume(vsym.Or(m.Bit(52), e == 1))
	z := vsym.WU(53, 0)
	n1, n2 := vsym.Bool("hneg"), vsym.Bool("lneg")
	p := dd{hneg: n1, lneg: n2, s: m, lsb: e - 1075}
	if vsym.Choose("zero", 0, 1) == 0 {
		p.hi, p.lo = packDouble(n1, e, m), packDouble(n2, 0, z)
		p.neg = n1
	} else {
		p.hi, p.lo = packDouble(n1, 0, z), packDouble(n2, e, m)
		p.neg = n2
	}
	return p
}

func checkDD(p dd) {
	x, nan := p.float().Big()
	vsym.ObsF("x", x)
	vsym.Assert(vsym.Not(nan), "a pair of finite doubles is not NaN")
	vsym.Assert(vsym.Not(p.float().IsNaN()), "IsNaN is false for a pair of finite doubles")
	vsym.Assert(x.Acc() == big.Exact, "the accuracy is Exact")
	if p.s.IsZero() {
		vsym.Assert(isZero(x), "a zero sum is zero")
		vsym.Assert(x.Signbit() == p.hneg, "a zero sum takes the sign of the high part")
		return
	}
	vsym.Reach("sum")
	vsym.Assert(finite(x), "a non-zero sum is finite and non-zero")
	vsym.Assert(x.Signbit() == p.neg, "the sign is that of the sum")
	checkExact(x, p.s, p.lsb)
}

func C05_Normal()     { checkDD(ddNormal()) }
func C05_HighNormal() { checkDD(ddHighNormal()) }
func C05_LowNormal()  { checkDD(ddLowNormal()) }
func C05_Subnormal()  { checkDD(ddSubnormal()) }
func C05_Zero()       { checkDD(ddZero()) }

// C05_Special: at least one part is an infinity or a NaN.
func C05_Special() {
	hi, lo := ddSpecial()
	x, nan := float128ppc.NewFromBits(hi, lo).Big()
	vsym.ObsF("x", x)
	vsym.ObsB("nan", nan)
	vsym.Assert(float128ppc.NewFromBits(hi, lo).IsNaN() == ddIsNaN(hi, lo), "IsNaN is true exactly for a NaN part or opposite infinities")
	vsym.Assert(nan == ddIsNaN(hi, lo), "nan is reported exactly for a NaN part or opposite infinities")
	vsym.Assert(x.Acc() == big.Exact, "the accuracy is Exact")
	if nan {
		vsym.Reach("nan")
		vsym.Assert(isZero(x), "a NaN is returned as zero")
		vsym.Assert(x.Signbit() == (hi>>63 != 0), "a NaN keeps the sign of the high part")
		return
	}
	vsym.Reach("infinity")
	vsym.Assert(x.IsInf(), "an infinite part gives an infinity")
	neg := vsym.IteI(isInf64(hi), int(hi>>63), int(lo>>63))
	vsym.Assert(x.Signbit() == (neg != 0), "the infinity has the sign of the infinite part")
}

// ddSpecial: any pair with an infinity or a NaN in it.
func ddSpecial() (hi, lo uint64) {
	hi, lo = vsym.U64("hi"), vsym.U64("lo")
	vsym.Assume(vsym.Or(hi>>52&0x7FF == 0x7FF, lo>>52&0x7FF == 0x7FF))
	return hi, lo
}

func isInf64(b uint64) bool { return b&^(1<<63) == 0x7FF<<52 }
func isNaN64(b uint64) bool { return b&^(1<<63) > 0x7FF<<52 }
func ddIsNaN(hi, lo uint64) bool {
	return vsym.Or(isNaN64(hi), isNaN64(lo), vsym.And(isInf64(hi), isInf64(lo), hi>>63 != lo>>63))
}
