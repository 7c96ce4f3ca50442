package h

import (
	"math"
	"math/big"

	"github.com/mewmew/float"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/zzverif/vsym"
)

// ---- C21

type special interface {
	Big() (*big.Float, bool)
	Float32() (float32, big.Accuracy)
	Float64() (float64, big.Accuracy)
}

const (
	kNaN = iota
	kInf
	kZero
)

// named checks an exported special value.
func named(v special, kind int, neg bool) {
	x, nan := v.Big()
	vsym.ObsF("x", x)
	vsym.Assert(nan == (kind == kNaN), "nan as the name says")
	vsym.Assert(x.Signbit() == neg, "the sign as the name says")
	vsym.Assert(x.IsInf() == (kind == kInf), "infinite as the name says")
	vsym.Assert(isZero(x) == (kind != kInf), "zero as the name says")
	f64, acc := v.Float64()
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
	checkHardware(math.Float64bits(f64), double, kind, neg)
	f32, acc := v.Float32()
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
	checkHardware(uint64(math.Float32bits(f32)), single, kind, neg)
}

func checkHardware(b uint64, f format, kind int, neg bool) {
	w := vsym.WU(1+f.eb+f.fb, b)
	vsym.Assert(w.Bit(f.eb+f.fb) == neg, "the hardware value has the sign")
	n := w.Extract(f.eb+f.fb-1, 0)
	switch kind {
	case kNaN:
		vsym.Assert(vsym.Not(n.Ule(f.infinity())), "the hardware value is NaN")
	case kInf:
		vsym.Assert(n.Eq(f.infinity()), "the hardware value is infinite")
	default:
		vsym.Assert(n.IsZero(), "the hardware value is zero")
	}
}

func which() (kind int, neg bool) {
	return vsym.Choose("kind", 0, 2), vsym.Choose("negative", 0, 1) == 1
}

func named16(kind int, neg bool) binary16.Float {
	return [3][2]binary16.Float{{binary16.NaN, binary16.NegNaN}, {binary16.Inf, binary16.NegInf}, {binary16.Zero, binary16.NegZero}}[kind][b2i(neg)]
}

func named128(kind int, neg bool) binary128.Float {
	return [3][2]binary128.Float{{binary128.NaN, binary128.NegNaN}, {binary128.Inf, binary128.NegInf}, {binary128.Zero, binary128.NegZero}}[kind][b2i(neg)]
}

func named80(kind int, neg bool) float80x86.Float {
	return [3][2]float80x86.Float{{float80x86.NaN, float80x86.NegNaN}, {float80x86.Inf, float80x86.NegInf}, {float80x86.Zero, float80x86.NegZero}}[kind][b2i(neg)]
}

func namedPPC(kind int, neg bool) float128ppc.Float {
	return [3][2]float128ppc.Float{{float128ppc.NaN, float128ppc.NegNaN}, {float128ppc.Inf, float128ppc.NegInf}, {float128ppc.Zero, float128ppc.NegZero}}[kind][b2i(neg)]
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func C21_Named16()  { k, n := which(); named(named16(k, n), k, n) }
func C21_Named128() { k, n := which(); named(named128(k, n), k, n) }
func C21_Named80()  { k, n := which(); named(named80(k, n), k, n) }
func C21_NamedPPC() { k, n := which(); named(namedPPC(k, n), k, n) }

func eq16(a, b binary16.Float) bool { return a.Bits() == b.Bits() }
func eq128(a, b binary128.Float) bool {
	a1, a2 := a.Bits()
	b1, b2 := b.Bits()
	return vsym.And(a1 == b1, a2 == b2)
}
func eq80(a, b float80x86.Float) bool {
	a1, a2 := a.Bits()
	b1, b2 := b.Bits()
	return vsym.And(a1 == b1, a2 == b2)
}
func eqPPC(a, b float128ppc.Float) bool {
	a1, a2 := a.Bits()
	b1, b2 := b.Bits()
	return vsym.And(a1 == b1, a2 == b2)
}

// fromBig: zeros and infinities of any precision, mode and accuracy. inside is
// called with the kind and a sign that the path has decided.
func fromBig(enc func(x *big.Float, kind int, neg bool) (bool, big.Accuracy)) {
	inf := vsym.Choose("inf", 0, 1) == 1
	x := vsym.Special("x", inf)
	kind := kZero
	if inf {
		kind = kInf
	}
	same, acc := enc(x, kind, vsym.Cut(x.Signbit()))
	vsym.Assert(same, "the exported value of the same kind and sign")
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
}

func C21_Big16() {
	fromBig(func(x *big.Float, k int, n bool) (bool, big.Accuracy) {
		f, acc := binary16.NewFromBig(x)
		return eq16(f, named16(k, n)), acc
	})
}

func C21_Big128() {
	fromBig(func(x *big.Float, k int, n bool) (bool, big.Accuracy) {
		f, acc := binary128.NewFromBig(x)
		return eq128(f, named128(k, n)), acc
	})
}

func C21_Big80() {
	fromBig(func(x *big.Float, k int, n bool) (bool, big.Accuracy) {
		f, acc := float80x86.NewFromBig(x)
		return eq80(f, named80(k, n)), acc
	})
}

func C21_BigPPC() {
	fromBig(func(x *big.Float, k int, n bool) (bool, big.Accuracy) {
		f, acc := float128ppc.NewFromBig(x)
		return eqPPC(f, namedPPC(k, n)), acc
	})
}

// fromHW: zeros, infinities and NaNs of any payload.
func fromHW(src format, enc func(b uint64, kind int, neg bool) (bool, big.Accuracy)) {
	kind, neg := which()
	var frac uint64
	exp := src.emax()
	switch kind {
	case kNaN:
		frac = src.fraction()
		vsym.Assume(frac != 0)
	case kZero:
		exp = 0
	}
	same, acc := enc(src.hwBits(neg, exp, frac), kind, neg)
	vsym.Assert(same, "the exported value of the same kind and sign")
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
}

func C21_Hardware16() {
	fromHW(double, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := binary16.NewFromFloat64(math.Float64frombits(b))
		return eq16(f, named16(k, n)), acc
	})
	fromHW(single, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := binary16.NewFromFloat32(math.Float32frombits(uint32(b)))
		return eq16(f, named16(k, n)), acc
	})
}

func C21_Hardware128() {
	fromHW(double, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := binary128.NewFromFloat64(math.Float64frombits(b))
		return eq128(f, named128(k, n)), acc
	})
	fromHW(single, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := binary128.NewFromFloat32(math.Float32frombits(uint32(b)))
		return eq128(f, named128(k, n)), acc
	})
}

func C21_Hardware80() {
	fromHW(double, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := float80x86.NewFromFloat64(math.Float64frombits(b))
		return eq80(f, named80(k, n)), acc
	})
	fromHW(single, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := float80x86.NewFromFloat32(math.Float32frombits(uint32(b)))
		return eq80(f, named80(k, n)), acc
	})
}

func C21_HardwarePPC() {
	fromHW(double, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := float128ppc.NewFromFloat64(math.Float64frombits(b))
		return eqPPC(f, namedPPC(k, n)), acc
	})
	fromHW(single, func(b uint64, k int, n bool) (bool, big.Accuracy) {
		f, acc := float128ppc.NewFromFloat32(math.Float32frombits(uint32(b)))
		return eqPPC(f, namedPPC(k, n)), acc
	})
}

// ---- C22

type predicate func(x *big.Float) bool

func (f format) checkIsExact(is predicate, x *big.Float, want bool) {
	before := vsym.Clone(x)
	got := is(x)
	vsym.ObsB("exact", got)
	vsym.Assert(got == want, "true exactly when the value is representable")
	vsym.Assert(vsym.SameFloat(x, before), "the argument is left as it was")
}

func (f format) isExactNormal(is predicate) {
	be := vsym.Int("be", 1, f.emax()-1)
	x := vsym.Float("x", mantBits(), be+1-f.bias())
	f.checkIsExact(is, x, vsym.MantFits(x, f.fb+1))
}

func (f format) isExactSubnormal(is predicate) {
	be := vsym.Choose("be", -f.fb, 0)
	x := vsym.Float("x", mantBits(), be+1-f.bias())
	f.checkIsExact(is, x, vsym.MantFits(x, f.fb+be))
}

func (f format) isExactOutside(is predicate) {
	switch vsym.Choose("kind", 0, 3) {
	case 0:
		exp := vsym.Int("exp", big.MinExp, -f.fb-f.bias())
		f.checkIsExact(is, vsym.Float("x", mantBits(), exp), false)
	case 1:
		exp := vsym.Int("exp", f.bias()+2, big.MaxExp)
		f.checkIsExact(is, vsym.Float("x", mantBits(), exp), false)
	case 2:
		f.checkIsExact(is, vsym.Special("x", false), true)
	default:
		f.checkIsExact(is, vsym.Special("x", true), true)
	}
}

func C22_Normal16()    { half.isExactNormal(float.IsExact16) }
func C22_Subnormal16() { half.isExactSubnormal(float.IsExact16) }
func C22_Outside16()   { half.isExactOutside(float.IsExact16) }
func C22_Normal32()    { single.isExactNormal(float.IsExact32) }
func C22_Subnormal32() { single.isExactSubnormal(float.IsExact32) }
func C22_Outside32()   { single.isExactOutside(float.IsExact32) }
func C22_Normal64()    { double.isExactNormal(float.IsExact64) }
func C22_Subnormal64() { double.isExactSubnormal(float.IsExact64) }
func C22_Outside64()   { double.isExactOutside(float.IsExact64) }

// ---- C23

func back(src format, b, got uint64, acc big.Accuracy) {
	vsym.Obs("got", got)
	w, g := vsym.WU(1+src.eb+src.fb, b), vsym.WU(1+src.eb+src.fb, got)
	nan := src.isNaN(src.split(w))
	sg := src.split(g)
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
	vsym.Assert(vsym.Or(nan, b == got), "the same bits come back")
	vsym.Assert(vsym.Or(vsym.Not(nan), vsym.And(src.isNaN(sg), sg.neg == w.Bit(src.eb+src.fb))), "a NaN comes back as a NaN of the same sign")
}

func C23_Quad64() {
	b := vsym.U64("bits")
	f, _ := binary128.NewFromFloat64(math.Float64frombits(b))
	x, acc := f.Float64()
	back(double, b, math.Float64bits(x), acc)
}

func C23_Quad32() {
	b := vsym.U32("bits")
	f, _ := binary128.NewFromFloat32(math.Float32frombits(b))
	x, acc := f.Float32()
	back(single, uint64(b), uint64(math.Float32bits(x)), acc)
}

func C23_X8664() {
	b := vsym.U64("bits")
	f, _ := float80x86.NewFromFloat64(math.Float64frombits(b))
	x, acc := f.Float64()
	back(double, b, math.Float64bits(x), acc)
}

func C23_X8632() {
	b := vsym.U32("bits")
	f, _ := float80x86.NewFromFloat32(math.Float32frombits(b))
	x, acc := f.Float32()
	back(single, uint64(b), uint64(math.Float32bits(x)), acc)
}

func C23_PPC64() {
	b := vsym.U64("bits")
	f, _ := float128ppc.NewFromFloat64(math.Float64frombits(b))
	x, acc := f.Float64()
	back(double, b, math.Float64bits(x), acc)
}

func C23_PPC32() {
	b := vsym.U32("bits")
	f, _ := float128ppc.NewFromFloat32(math.Float32frombits(b))
	x, acc := f.Float32()
	back(single, uint64(b), uint64(math.Float32bits(x)), acc)
}

func C23_Half64() {
	b := vsym.U16("bits")
	x, acc := binary16.NewFromBits(b).Float64()
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
	f, acc := binary16.NewFromFloat64(x)
	back(half, uint64(b), uint64(f.Bits()), acc)
}

func C23_Half32() {
	b := vsym.U16("bits")
	x, acc := binary16.NewFromBits(b).Float32()
	vsym.Assert(acc == big.Exact, "the accuracy is Exact")
	f, acc := binary16.NewFromFloat32(x)
	back(half, uint64(b), uint64(f.Bits()), acc)
}

// ---- C24

// key orders encodings like the numbers they stand for: neg and magnitude.
func notGreater(xneg bool, x vsym.W, yneg bool, y vsym.W) bool {
	return vsym.Or(
		vsym.And(xneg, vsym.Not(yneg)),
		vsym.And(xneg, yneg, y.Ule(x)),
		vsym.And(vsym.Not(xneg), vsym.Not(yneg), x.Ule(y)),
		vsym.And(x.IsZero(), y.IsZero()))
}

// monotone: x <= y with exponents in the given relation.
func (f format) monotone(enc encoder, ex, ey int, bits int) {
	x, y := vsym.Float("x", bits, ex), vsym.Float("y", bits, ey)
	vsym.Assume(x.Cmp(y) <= 0)
	xn, xe, _ := enc(x)
	yn, ye, _ := enc(y)
	vsym.Obs("x", xe.U())
	vsym.Obs("y", ye.U())
	vsym.Assert(notGreater(xn, xe, yn, ye), "a not greater argument has a not greater encoding")
}

func (f format) monotoneNormal(enc encoder) {
	lo, hi := 2-f.bias(), f.bias()+3
	f.monotone(enc, vsym.Int("ex", lo, hi), vsym.Int("ey", lo, hi), f.fb+20)
}

func (f format) monotoneSubnormal(enc encoder) {
	var be int
	if vsym.Thorough() {
		be = vsym.Choose("be", -f.fb-1, 0)
	} else {
		be = vsym.Pick("be", -f.fb-1, -f.fb, -f.fb+1, -f.fb/2, -1, 0)
	}
	other := be + vsym.Choose("step", 0, 1)
	ex, ey := be+1-f.bias(), other+1-f.bias()
	if vsym.Choose("swap", 0, 1) == 1 {
		ex, ey = ey, ex
	}
	f.monotone(enc, ex, ey, f.fb+20)
}

// mirror: the negated argument gives the negated encoding.
func mirror(enc encoder, x *big.Float, low func(n vsym.W) vsym.W) {
	y := vsym.Clone(x)
	y.Neg(y)
	vsym.SetAcc(y, int8(x.Acc()))
	xn, xe, xa := enc(x)
	yn, ye, ya := enc(y)
	vsym.Obs("x", xe.U())
	vsym.Obs("y", ye.U())
	vsym.Assert(xn != yn, "the negated argument has the opposite sign")
	vsym.Assert(low(xe).Eq(low(ye)), "the negated argument has the same magnitude")
	vsym.Assert(int(xa) == -int(ya), "the accuracy is mirrored")
}

func same(n vsym.W) vsym.W { return n }

func C24_Monotone16()     { half.monotoneNormal(enc16) }
func C24_MonotoneSub16()  { half.monotoneSubnormal(enc16) }
func C24_Mirror16()       { mirror(enc16, anyFloat("x", 15, 10, 64), same) }
func C24_Monotone128()    { quad.monotoneNormal(enc128) }
func C24_MonotoneSub128() { quad.monotoneSubnormal(enc128) }
func C24_Mirror128()      { mirror(enc128, anyFloat("x", 16383, 112, 192), same) }
func C24_Monotone80()     { x86.monotoneNormal(enc80) }
func C24_MonotoneSub80()  { x86.monotoneSubnormal(enc80) }
func C24_Mirror80()       { mirror(enc80, anyFloat("x", 16383, 63, 128), same) }

// C24_MirrorPPC: both parts change sign (a zero low part need not).
func C24_MirrorPPC() {
	var x *big.Float
	switch vsym.Choose("kind", 0, 5) {
	case 0:
		x = vsym.Float("x", 128, vsym.Int("exp", 1-1023+200, 1024))
	case 1:
		x = vsym.Float("x", 72, vsym.Pick("exp", -1000, -960, -1021, -1022, -1050, -1073, -1074))
	case 2:
		x = vsym.Float("x", 128, vsym.Int("exp", big.MinExp, -1075))
	case 3:
		x = vsym.Float("x", 128, vsym.Int("exp", 1025, big.MaxExp))
	case 4:
		x = vsym.Special("x", false)
	default:
		x = vsym.Special("x", true)
	}
	mirror(encPPC, x, func(n vsym.W) vsym.W {
		// high magnitude, low magnitude
		return n.Extract(126, 64).Concat(n.Extract(62, 0))
	})
	// the signs of the low parts
	y := vsym.Clone(x)
	y.Neg(y)
	f, _ := float128ppc.NewFromBig(x)
	g, _ := float128ppc.NewFromBig(y)
	_, a := f.Bits()
	_, b := g.Bits()
	vsym.Assert(vsym.Or(a&(1<<63-1) == 0, a>>63 != b>>63), "the low part changes sign")
}
