package h

import (
	"math/big"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

// ---- C18

func C18_Half() {
	b := vsym.U16("bits")
	f := binary16.NewFromBits(b)
	vsym.Assert(f.Bits() == b, "Bits returns the pattern")
	vsym.Assert(f.Signbit() == (b>>15 == 1), "Signbit is bit 15")
	vsym.Assert(f.Exp() == int(b>>10&0x1F), "Exp is the exponent field")
	vsym.Assert(f.Frac() == b&0x3FF, "Frac is the fraction field")
	sign := uint16(vsym.IteI(f.Signbit(), 1, 0))
	vsym.Assert(sign<<15|uint16(f.Exp())<<10|f.Frac() == b, "the fields determine the pattern")
}

func C18_BFloat() {
	b := vsym.U16("bits")
	f := bfloat.NewFromBits(b)
	vsym.Assert(f.Signbit() == (b>>15 == 1), "Signbit is bit 15")
	vsym.Assert(f.Exp() == int(b>>7&0xFF), "Exp is the exponent field")
	vsym.Assert(f.Frac() == b&0x7F, "Frac is the fraction field")
	sign := uint16(vsym.IteI(f.Signbit(), 1, 0))
	vsym.Assert(sign<<15|uint16(f.Exp())<<7|f.Frac() == b, "the fields determine the pattern")
}

func C18_Quad() {
	a, b := vsym.U64("a"), vsym.U64("b")
	f := binary128.NewFromBits(a, b)
	ga, gb := f.Bits()
	vsym.Assert(vsym.And(ga == a, gb == b), "Bits returns the pattern")
	vsym.Assert(f.Signbit() == (a>>63 == 1), "Signbit is the top bit")
	vsym.Assert(f.Exp() == int(a>>48&0x7FFF), "Exp is the exponent field")
	hi, lo := f.Frac()
	vsym.Assert(vsym.And(hi == a&(1<<48-1), lo == b), "Frac is the fraction field")
	sign := uint64(vsym.IteI(f.Signbit(), 1, 0))
	vsym.Assert(sign<<63|uint64(f.Exp())<<48|hi == a, "the fields determine the pattern")
}

func C18_X86() {
	se, m := vsym.U16("se"), vsym.U64("m")
	f := float80x86.NewFromBits(se, m)
	gs, gm := f.Bits()
	vsym.Assert(vsym.And(gs == se, gm == m), "Bits returns the pattern")
	vsym.Assert(f.Signbit() == (se>>15 == 1), "Signbit is the top bit")
	vsym.Assert(f.Exp() == int(se&0x7FFF), "Exp is the exponent field")
	vsym.Assert(f.Lead() == int(m>>63), "Lead is the integer bit")
	vsym.Assert(f.Frac() == m&(1<<63-1), "Frac is the fraction field")
	sign := uint16(vsym.IteI(f.Signbit(), 1, 0))
	vsym.Assert(sign<<15|uint16(f.Exp()) == se, "the fields determine the pattern")
	vsym.Assert(uint64(f.Lead())<<63|f.Frac() == m, "the fields determine the significand")
}

func C18_DoubleDouble() {
	a, b := vsym.U64("a"), vsym.U64("b")
	ga, gb := float128ppc.NewFromBits(a, b).Bits()
	vsym.Assert(vsym.And(ga == a, gb == b), "Bits returns the pattern")
}

// ---- C19

func C19_Half() {
	b := vsym.U16("bits")
	x, nan := binary16.NewFromBits(b).Big()
	vsym.Assume(vsym.Not(half.isNaN(half.split(vsym.WU(16, uint64(b))))))
	vsym.Assert(vsym.Not(nan), "the pattern is not NaN")
	f, acc := binary16.NewFromBig(x)
	vsym.Obs("got", uint64(f.Bits()))
	vsym.Assert(f.Bits() == b, "the same bits come back")
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
}

func C19_Quad() {
	a, b := vsym.U64("a"), vsym.U64("b")
	vsym.Assume(vsym.Not(vsym.And(a>>48&0x7FFF == 0x7FFF, vsym.Or(a&(1<<48-1) != 0, b != 0))))
	x, nan := binary128.NewFromBits(a, b).Big()
	vsym.Assert(vsym.Not(nan), "the pattern is not NaN")
	f, acc := binary128.NewFromBig(x)
	ga, gb := f.Bits()
	vsym.Obs("a", ga)
	vsym.Obs("b", gb)
	vsym.Assert(vsym.And(ga == a, gb == b), "the same bits come back")
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
}

func C19_X86() {
	se, m := vsym.U16("se"), vsym.U64("m")
	exp := se & 0x7FFF
	// canonical: the integer bit is set exactly for a non-zero exponent
	vsym.Assume((m>>63 == 1) == (exp != 0))
	vsym.Assume(vsym.Or(exp != 0x7FFF, m == 1<<63))
	x, nan := float80x86.NewFromBits(se, m).Big()
	vsym.Assert(vsym.Not(nan), "the pattern is not NaN")
	f, acc := float80x86.NewFromBig(x)
	gs, gm := f.Bits()
	vsym.Obs("se", uint64(gs))
	vsym.Obs("m", gm)
	vsym.Assert(vsym.And(gs == se, gm == m), "the same bits come back")
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
}

func roundTripDD(hi, lo uint64) {
	x, nan := float128ppc.NewFromBits(hi, lo).Big()
	vsym.Assert(vsym.Not(nan), "the pattern is not NaN")
	f, acc := float128ppc.NewFromBig(x)
	a, b := f.Bits()
	vsym.Obs("hi", a)
	vsym.Obs("lo", b)
	vsym.Assert(vsym.And(a == hi, b == lo), "the same bits come back")
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
}

// canonical assumes that the high part is the double nearest to the sum.
func (p dd) canonical() dd {
	vsym.Assume(vsym.Not(p.s.IsZero()))
	k := p.s.Clz()
	n, _ := double.nearest(p.neg, p.s.Shl(k), p.lsb+p.s.Width()-k-1+1023, true)
	h := vsym.WU(64, p.hi)
	vsym.Assume(vsym.And(h.Bit(63) == p.neg, h.Extract(62, 0).Eq(n)))
	return p
}

func C19_DoubleDouble() {
	var d int
	if vsym.Thorough() {
		d = vsym.Choose("d", 53, 2045)
	} else if vsym.Choose("far", 0, 1) == 0 {
		d = vsym.Choose("d", 53, 110)
	} else {
		d = vsym.Pick("d", 127, 128, 129, 255, 256, 500, 511, 512, 1000, 1022, 1023, 1024, 1500, 2000, 2043, 2044, 2045)
	}
	eh := vsym.Int("eh", 1+d, 2046)
	p := newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), normalMant("mh"), normalMant("ml"), eh, eh-d, d)
	p = p.canonical()
	roundTripDD(p.hi, p.lo)
}

func C19_DoubleDoubleSubnormal() {
	var d int
	if vsym.Thorough() {
		d = vsym.Choose("d", 1, 160)
	} else {
		d = vsym.Pick("d", 1, 2, 26, 51, 52, 53, 54, 106, 107, 2045)
	}
	p := newDD(vsym.Bool("hneg"), vsym.Bool("lneg"), normalMant("mh"), subnormalMant("ml"), 1+d, 1, d)
	p = p.canonical()
	roundTripDD(p.hi, p.lo)
}

func C19_DoubleDoubleZero() {
	hi := vsym.U64("hi")
	vsym.Assume(vsym.Not(isNaN64(hi)))
	roundTripDD(hi, 0)
}
