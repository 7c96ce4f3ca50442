package h

import (
	"math/big"

	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

func enc16(x *big.Float) (bool, vsym.W, big.Accuracy) {
	f, acc := binary16.NewFromBig(x)
	w := vsym.WU(16, uint64(f.Bits()))
	return w.Bit(15), w.Extract(14, 0), acc
}

func enc128(x *big.Float) (bool, vsym.W, big.Accuracy) {
	f, acc := binary128.NewFromBig(x)
	a, b := f.Bits()
	w := vsym.WU(64, a).Concat(vsym.WU(64, b))
	return w.Bit(127), w.Extract(126, 0), acc
}

// x86 is the x86 extended format without its explicit lead bit.
var x86 = format{15, 63}

func enc80(x *big.Float) (bool, vsym.W, big.Accuracy) {
	f, acc := float80x86.NewFromBig(x)
	se, m := f.Bits()
	vsym.Obs("se", uint64(se))
	vsym.Obs("m", m)
	exp := se & 0x7FFF
	vsym.Assert((m>>63 != 0) == (exp != 0), "the integer bit is set exactly for normal numbers")
	return se>>15 != 0, vsym.WU(15, uint64(exp)).Concat(vsym.WU(63, m)), acc
}

func mantBits() int {
	if vsym.Thorough() {
		return 2048
	}
	return 512
}

// C06: binary16 from big.Float.
func C06_Normal()    { half.encodeNormal(enc16, mantBits()) }
func C06_Subnormal() { half.encodeSubnormal(enc16, mantBits()) }
func C06_Tiny()      { half.encodeTiny(enc16, mantBits()) }
func C06_Huge()      { half.encodeHuge(enc16, mantBits()) }
func C06_Special()   { half.encodeSpecial(enc16) }

// C08: binary128 from big.Float.
func C08_Normal()    { quad.encodeNormal(enc128, mantBits()) }
func C08_Subnormal() { quad.encodeSubnormal(enc128, mantBits()) }
func C08_Tiny()      { quad.encodeTiny(enc128, mantBits()) }
func C08_Huge()      { quad.encodeHuge(enc128, mantBits()) }
func C08_Special()   { quad.encodeSpecial(enc128) }

// C10: x86 extended from big.Float.
func C10_Normal()    { x86.encodeNormal(enc80, mantBits()) }
func C10_Subnormal() { x86.encodeSubnormal(enc80, mantBits()) }
func C10_Tiny()      { x86.encodeTiny(enc80, mantBits()) }
func C10_Huge()      { x86.encodeHuge(enc80, mantBits()) }
func C10_Special()   { x86.encodeSpecial(enc80) }
