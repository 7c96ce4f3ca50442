package h

import (
	"math"
	"math/big"

	"github.com/mewmew/float"
	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

// ---- C20: arguments

func encPPC(x *big.Float) (bool, vsym.W, big.Accuracy) {
	f, acc := float128ppc.NewFromBig(x)
	a, b := f.Bits()
	w := vsym.WU(64, a).Concat(vsym.WU(64, b))
	return w.Bit(127), w.Extract(126, 0), acc
}

// anyFloat gives a float of any kind, around the ranges of a format with the
// given bias and fraction length.
func anyFloat(name string, bias, fb, bits int) *big.Float {
	var exp int
	switch vsym.Choose(name+".kind", 0, 5) {
	case 0:
		exp = vsym.Int(name+".exp", 2-bias, bias+1) // normal
	case 1: // subnormal
		if vsym.Thorough() {
			exp = vsym.Choose(name+".exp", 1-fb-bias, 1-bias)
		} else {
			exp = vsym.Pick(name+".exp", 1-fb-bias, 2-fb-bias, 1-fb/2-bias, 1-bias)
		}
	case 2:
		exp = vsym.Int(name+".exp", big.MinExp, -fb-bias) // tiny
	case 3:
		exp = vsym.Int(name+".exp", bias+2, big.MaxExp) // huge
	case 4:
		return vsym.Special(name, false)
	default:
		return vsym.Special(name, true)
	}
	return vsym.Float(name, bits, exp)
}

// keeps states that f leaves its argument alone, and that it gives the same
// result again after another call.
func keeps(enc encoder, bias, fb, bits int) {
	keepsFor(enc, anyFloat("x", bias, fb, bits))
}

func keepsFor(enc encoder, x *big.Float) {
	before := vsym.Clone(x)
	neg, n, acc := enc(x)
	vsym.Obs("n", n.U())
	vsym.Assert(vsym.SameFloat(x, before), "the argument is left as it was")
	y := vsym.FloatP("y", 8, 3, 64, big.ToZero)
	enc(y)
	vsym.Assert(vsym.SameFloat(x, before), "another call leaves the argument as it was")
	neg2, n2, acc2 := enc(x)
	vsym.Assert(vsym.And(neg == neg2, n.Eq(n2), acc == acc2), "the same argument gives the same result again")
	vsym.Assert(vsym.SameFloat(x, before), "a second call leaves the argument as it was")
}

func C20_Keep16()  { keeps(enc16, 15, 10, 64) }
func C20_Keep128() { keeps(enc128, 16383, 112, 192) }
func C20_Keep80()  { keeps(enc80, 16383, 63, 128) }

// C20_KeepPPC: mantissas of 72 bits, so that the remainder has few forms.
func C20_KeepPPC() {
	var exp int
	switch vsym.Choose("kind", 0, 4) {
	case 0:
		exp = vsym.Int("exp", 1-1023+100, 1024)
	case 1:
		exp = vsym.Pick("exp", -1000, -960, -1021, -1022, -1050, -1074)
	case 2:
		exp = vsym.Int("exp", big.MinExp, -1075)
	case 3:
		exp = vsym.Int("exp", 1025, big.MaxExp)
	default:
		keepsFor(encPPC, vsym.Special("x", vsym.Choose("inf", 0, 1) == 1))
		return
	}
	keepsFor(encPPC, vsym.Float("x", 72, exp))
}

// exactly makes an encoder of a predicate.
func exactly(f func(x *big.Float) bool) encoder {
	return func(x *big.Float) (bool, vsym.W, big.Accuracy) {
		r := f(x)
		return r, vsym.WU(8, 0), 0
	}
}

func C20_KeepIsExact16() { keeps(exactly(float.IsExact16), 15, 10, 64) }
func C20_KeepIsExact32() { keeps(exactly(float.IsExact32), 127, 23, 64) }
func C20_KeepIsExact64() { keeps(exactly(float.IsExact64), 1023, 52, 96) }

// ---- C20: results

// decoder decodes a number built from fresh inputs named by name; check states
// that the result is right.
type decoder struct {
	decode func() (*big.Float, bool)
	check  func(x *big.Float, nan bool)
}

func (f format) value(name string) value {
	v := value{neg: vsym.Bool(name + ".neg"), frac: vsym.Wide(name+".frac", f.fb)}
	switch vsym.Choose(name+".kind", 0, 4) {
	case 0:
		v.exp = vsym.Int(name+".exp", 1, f.emax()-1)
	case 1:
		v.exp = 0
		n := vsym.Pick(name+".lead", 1, f.fb)
		v.frac = vsym.WU(f.fb, 1).Shl(f.fb - n)
		if n < f.fb {
			v.frac = v.frac.Add(vsym.Wide(name+".sub", f.fb-n).Zext(f.fb))
		}
	case 2:
		v.exp, v.frac = 0, vsym.WU(f.fb, 0)
	case 3:
		v.exp, v.frac = f.emax(), vsym.WU(f.fb, 0)
	default:
		v.exp = f.emax()
		vsym.Assume(vsym.Not(v.frac.IsZero()))
	}
	return v
}

func (f format) decoder(name string, mk func(v value) func() (*big.Float, bool)) decoder {
	v := f.value(name)
	return decoder{mk(v), func(x *big.Float, nan bool) {
		vsym.Assert(nan == f.isNaN(v), "nan is reported exactly for the NaN patterns")
		vsym.Assert(x.Signbit() == v.neg, "the sign bit is kept")
		vsym.Assert(int(x.Prec()) == f.fb+1, "the precision is that of the format")
		vsym.Assert(x.Mode() == big.ToNearestEven, "the rounding mode is to nearest even")
		vsym.Assert(x.Acc() == big.Exact, "the accuracy is Exact")
		f.checkValue(x, v)
	}}
}

// scribble changes x in one of several ways.
func scribble(x *big.Float) {
	switch vsym.Choose("how", 0, 4) {
	case 0:
		x.SetUint64(0x123456789ABCDEF)
	case 1:
		x.SetPrec(200).SetMode(big.ToZero)
		x.SetUint64(3)
		x.Neg(x)
	case 2:
		x.SetInf(true)
	case 3:
		x.SetFloat64(-0.1)
	default:
		x.SetPrec(2) // rounds in place
	}
}

// fresh states that results are independent of each other.
func fresh(a, b decoder) {
	x1, n1 := a.decode()
	k := vsym.Clone(x1)
	y, _ := b.decode()
	vsym.Assert(vsym.SameFloat(x1, k), "a later call leaves an earlier result as it was")
	ky := vsym.Clone(y)
	scribble(x1)
	vsym.Assert(vsym.SameFloat(y, ky), "changing one result leaves another as it was")
	x2, n2 := a.decode()
	vsym.ObsF("x2", x2)
	vsym.Assert(vsym.And(n1 == n2, vsym.SameFloat(x2, k)), "the same number decodes to the same result again")
	a.check(x2, n2)
	y2, ny := b.decode()
	b.check(y2, ny)
}

func dec16(v value) func() (*big.Float, bool) {
	f := binary16.NewFromBits(uint16(half.hwBits(v.neg, v.exp, v.frac.U())))
	return func() (*big.Float, bool) { return f.Big() }
}

func decBF(v value) func() (*big.Float, bool) {
	f := bfloat.NewFromBits(uint16(bf16.hwBits(v.neg, v.exp, v.frac.U())))
	return func() (*big.Float, bool) { return f.Big() }
}

func dec128(v value) func() (*big.Float, bool) {
	a := format{15, 48}.hwBits(v.neg, v.exp, v.frac.Extract(111, 64).U())
	f := binary128.NewFromBits(a, v.frac.Extract(63, 0).U())
	return func() (*big.Float, bool) { return f.Big() }
}

func C20_Fresh16()  { fresh(half.decoder("a", dec16), half.decoder("b", dec16)) }
func C20_FreshBF()  { fresh(bf16.decoder("a", decBF), bf16.decoder("b", decBF)) }
func C20_Fresh128() { fresh(quad.decoder("a", dec128), quad.decoder("b", dec128)) }

func x86Decoder(name string) decoder {
	neg := vsym.Bool(name + ".neg")
	m := vsym.U64(name + ".m")
	exp := 0x7FFF
	switch vsym.Choose(name+".kind", 0, 4) {
	case 0:
		exp = vsym.Int(name+".exp", 1, 0x7FFE)
		m |= 1 << 63
	case 1:
		exp = 0
		m = m>>2 | 1<<62
	case 2:
		exp, m = 0, 0
	case 3:
		m = 1 << 63
	default:
		vsym.Assume(m != 1<<63)
	}
	f := float80x86.NewFromBits(uint16(vsym.IteI(neg, 0x8000, 0)|exp), m)
	return decoder{
		func() (*big.Float, bool) { return f.Big() },
		func(x *big.Float, nan bool) {
			vsym.Assert(nan == vsym.And(exp == 0x7FFF, m != 1<<63), "nan is reported exactly for the NaN patterns")
			vsym.Assert(x.Signbit() == neg, "the sign bit is kept")
			vsym.Assert(x.Prec() == 64, "the precision is that of the format")
			vsym.Assert(x.Mode() == big.ToNearestEven, "the rounding mode is to nearest even")
			checkX86Value(x, exp, m)
		},
	}
}

func C20_Fresh80() { fresh(x86Decoder("a"), x86Decoder("b")) }

// ddDecoder: the double-double pairs that take different ways through Big.
func ddDecoder(name string) decoder {
	var hi, lo uint64
	var p dd
	kind := vsym.Choose(name+".kind", 0, 4)
	switch kind {
	case 0:
		d := vsym.Pick(name+".d", 53, 60)
		eh := vsym.Int(name+".eh", 1+d, 2046)
		p = newDD(vsym.Bool(name+".hneg"), false, normalMant(name+".mh"), normalMant(name+".ml"), eh, eh-d, d)
		hi, lo = p.hi, p.lo
	case 1:
		e := vsym.Int(name+".eh", 1, 2046)
		m := normalMant(name + ".mh")
		neg := vsym.Bool(name + ".hneg")
		hi = packDouble(neg, e, m)
		p = dd{hneg: neg, neg: neg, s: m, lsb: e - 1075}
	case 2:
		hi, lo = math.Float64bits(math.Inf(1)), 0
	case 3:
		hi = uint64(vsym.IteI(vsym.Bool(name+".hneg"), 1, 0)) << 63
		p.hneg = hi>>63 != 0
	default:
		hi, lo = math.Float64bits(math.NaN()), 0
	}
	f := float128ppc.NewFromBits(hi, lo)
	return decoder{
		func() (*big.Float, bool) { return f.Big() },
		func(x *big.Float, nan bool) {
			vsym.Assert(nan == (kind == 4), "nan is reported exactly for a NaN")
			vsym.Assert(x.Acc() == big.Exact, "the accuracy is Exact")
			switch kind {
			case 0, 1:
				vsym.Assert(x.Signbit() == p.neg, "the sign is that of the sum")
				checkExact(x, p.s, p.lsb)
			case 2:
				vsym.Assert(vsym.And(x.IsInf(), vsym.Not(x.Signbit())), "infinity")
			case 3:
				vsym.Assert(vsym.And(isZero(x), x.Signbit() == p.hneg), "zero")
			}
		},
	}
}

func C20_FreshPPC() { fresh(ddDecoder("a"), ddDecoder("b")) }
