package h

import (
	"math/big"

	"github.com/mewmew/float/zzverif/vsym"
)

// encoder is the function under test: the sign, the exponent and fraction
// fields as one integer, and the accuracy of the encoding of x.
type encoder func(x *big.Float) (neg bool, n vsym.W, acc big.Accuracy)

// accuracy of rounding a magnitude, without branching.
func accuracy(inexact, up, neg bool) big.Accuracy {
	return big.Accuracy(vsym.IteI(inexact, vsym.IteI(up == neg, int(big.Below), int(big.Above)), 0))
}

// roundTop rounds the normalised mantissa m (0.m) to its top p bits, ties to
// even; the result is p+1 bits wide.
func roundTop(m vsym.W, p int) (k vsym.W, inexact, up bool) {
	n := m.Width()
	if p >= n {
		return m.Zext(p + 1).Shl(p - n), false, false
	}
	rest := n - p
	guard := m.Bit(rest - 1)
	sticky := m.AnyLow(rest - 1)
	if p <= 0 {
		// Below half a unit, or (p == 0) from half a unit up to one unit; the
		// tie goes to zero.
		if p < 0 {
			return vsym.WU(1, 0), true, false
		}
		return vsym.IteW(sticky, vsym.WU(1, 1), vsym.WU(1, 0)), true, sticky
	}
	odd := m.Bit(rest)
	k = m.Extract(n-1, rest).Zext(p + 1)
	up = vsym.And(guard, vsym.Or(sticky, odd))
	k = k.Add(vsym.IteW(up, vsym.WU(p+1, 1), vsym.WU(p+1, 0)))
	return k, vsym.Or(guard, sticky), up
}

func (f format) infinity() vsym.W {
	return vsym.WU(f.eb+f.fb, uint64(f.emax())).Shl(f.fb)
}

// nearest gives the exponent and fraction fields, as one integer of eb+fb
// bits, of the magnitude 0.m * 2^exp rounded to nearest even, for
//
//	be = exp-1+bias >= 1 (normal), or a concrete be <= 0 (subnormal, zero).
func (f format) nearest(neg bool, m vsym.W, be int, normal bool) (n vsym.W, acc big.Accuracy) {
	w := f.eb + f.fb
	if !normal {
		k, inexact, up := roundTop(m, f.fb+be)
		return k.Zext(w), accuracy(inexact, up, neg)
	}
	k, inexact, up := roundTop(m, f.fb+1)
	// The lead bit of k adds one to the exponent field; a carry adds one more.
	n = vsym.WU(w+1, uint64(be-1)).Shl(f.fb).Add(k.Zext(w + 1))
	inf := f.infinity().Zext(w + 1)
	over := vsym.Not(n.Ult(inf))
	n = vsym.IteW(over, inf, n)
	return n.Extract(w-1, 0), accuracy(vsym.Or(inexact, over), vsym.Or(up, over), neg)
}

func (f format) checkEncoded(enc encoder, x *big.Float, neg bool, want vsym.W, wantAcc big.Accuracy) {
	gotNeg, n, acc := enc(x)
	vsym.Obs("lo", n.U())
	vsym.Obs("acc", uint64(uint8(acc)))
	vsym.Assert(gotNeg == neg, "the sign is kept")
	vsym.Assert(n.Eq(want), "the encoding is the nearest one, ties to even")
	vsym.Assert(acc == wantAcc, "the accuracy is that of the encoding")
}

// encodeNormal: every exponent of a normal number.
func (f format) encodeNormal(enc encoder, bits int) {
	be := vsym.Int("be", 1, f.emax()-1)
	x := vsym.Float("x", bits, be+1-f.bias())
	neg, m := x.Signbit(), vsym.Mant(x, bits)
	want, acc := f.nearest(neg, m, be, true)
	f.checkEncoded(enc, x, neg, want, acc)
}

// encodeSubnormal: every exponent below the normal range down to half the
// smallest subnormal.
func (f format) encodeSubnormal(enc encoder, bits int) {
	be := vsym.Choose("be", -f.fb, 0)
	x := vsym.Float("x", bits, be+1-f.bias())
	neg, m := x.Signbit(), vsym.Mant(x, bits)
	want, acc := f.nearest(neg, m, be, false)
	f.checkEncoded(enc, x, neg, want, acc)
}

// encodeTiny: below half the smallest subnormal.
func (f format) encodeTiny(enc encoder, bits int) {
	exp := vsym.Int("exp", big.MinExp, -f.fb-1+1-f.bias())
	x := vsym.Float("x", bits, exp)
	neg := x.Signbit()
	f.checkEncoded(enc, x, neg, vsym.WU(f.eb+f.fb, 0), accuracy(true, false, neg))
}

// encodeHuge: at least 2^(bias+1).
func (f format) encodeHuge(enc encoder, bits int) {
	exp := vsym.Int("exp", f.emax()+1-f.bias(), big.MaxExp)
	x := vsym.Float("x", bits, exp)
	neg := x.Signbit()
	f.checkEncoded(enc, x, neg, f.infinity(), accuracy(true, true, neg))
}

// encodeSpecial: zeros and infinities.
func (f format) encodeSpecial(enc encoder) {
	inf := vsym.Choose("inf", 0, 1) == 1
	x := vsym.Special("x", inf)
	neg := x.Signbit()
	want := vsym.WU(f.eb+f.fb, 0)
	if inf {
		want = f.infinity()
	}
	f.checkEncoded(enc, x, neg, want, big.Exact)
}
