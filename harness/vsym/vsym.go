// Package vsym is the interface between a harness and the symbolic executor.
//
// The executor intercepts every function of this package. The bodies below are
// the native versions, used to replay a solver model against the real code:
// inputs come from the recorded vector, assertions are evaluated.
package vsym

import (
	"fmt"
	"math/big"
	"unsafe"
)

// W is an unsigned integer of fixed width.
type W = *wide

type wide struct {
	w int
	v *big.Int
}

// Stop is the panic value that ends a native run.
type Stop struct {
	Status, Msg string
}

type state struct {
	in    map[string]string
	occ   map[string]int
	Obs   []string
	tier  int
	trace bool
}

var cur *state

// Start prepares a native run.
func Start(in map[string]string, tier int) { cur = &state{in: in, occ: map[string]int{}, tier: tier} }

// Observed returns what the run observed.
func Observed() []string { return cur.Obs }

func input(name string) *big.Int {
	k := cur.occ[name]
	cur.occ[name]++
	key := fmt.Sprintf("%s#%d", name, k)
	s, ok := cur.in[key]
	if !ok {
		panic(Stop{"missing", key})
	}
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(Stop{"missing", key + " bad value"})
	}
	return v
}

func U8(name string) uint8   { return uint8(input(name).Uint64()) }
func U16(name string) uint16 { return uint16(input(name).Uint64()) }
func U32(name string) uint32 { return uint32(input(name).Uint64()) }
func U64(name string) uint64 { return input(name).Uint64() }
func Bool(name string) bool  { return input(name).Sign() != 0 }

// Int is a symbolic integer in lo..hi.
func Int(name string, lo, hi int) int { return int(int64(input(name).Uint64())) }

// Choose is a concrete integer in lo..hi; the executor forks over all of them.
func Choose(name string, lo, hi int) int { return int(int64(input(name).Uint64())) }

// Pick is one of the given values; the executor forks over all of them.
func Pick(name string, vals ...int) int { return int(int64(input(name).Uint64())) }

// Wide is a symbolic integer of the given width.
func Wide(name string, width int) W { return &wide{width, input(name)} }

// Thorough reports the tier.
// Fails and Succeeds split a check at a function that reports success: see the
// engine. The real run does both parts.
func Fails(fn string)    {}
func Succeeds(fn string) {}

// Linear asks for path by path exploration, decided in integer arithmetic.
func Linear() {}

func Thorough() bool { return cur.tier > 0 }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"fail", msg})
	}
}

// Reach marks a point that some path must reach.
func Reach(label string) {}

// Obs records an observation, compared between the model and the real run.
func Obs(name string, v uint64) { cur.Obs = append(cur.Obs, fmt.Sprintf("%s=%x", name, v)) }

// ObsB records a boolean.
func ObsB(name string, v bool) {
	s := "0"
	if v {
		s = "1"
	}
	cur.Obs = append(cur.Obs, name+"="+s)
}

// ObsF records all of a big.Float.
func ObsF(name string, x *big.Float) {
	Obs(name+".form", uint64(form(x)))
	ObsB(name+".neg", x.Signbit())
	Obs(name+".prec", uint64(x.Prec()))
	Obs(name+".mode", uint64(x.Mode()))
	Obs(name+".acc", uint64(uint8(x.Acc())))
	if form(x) == 1 {
		Obs(name+".exp", uint64(int64(x.MantExp(nil))))
		cur.Obs = append(cur.Obs, fmt.Sprintf("%s.mant=%x", name, mantTop(x, 256)))
	}
}

func form(x *big.Float) int {
	switch {
	case x.IsInf():
		return 2
	case x.Sign() == 0:
		return 0
	}
	return 1
}

// And, Or, Not, Implies combine conditions without branching.
func And(c ...bool) bool {
	r := true
	for _, x := range c {
		r = r && x
	}
	return r
}
func Or(c ...bool) bool {
	r := false
	for _, x := range c {
		r = r || x
	}
	return r
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteI(c bool, a, b int) int { // without branching
	if c {
		return a
	}
	return b
}
func IteW(c bool, a, b W) W {
	if c {
		return a
	}
	return b
}

// Cut forks on c, so that later terms are simpler; it returns c.
func Cut(c bool) bool { return c }

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}
func mk(w int, v *big.Int) W {
	return &wide{w, v.And(v, mask(w))}
}

// WU is a constant or a uint64 in the given width (truncating).
func WU(width int, v uint64) W { return mk(width, new(big.Int).SetUint64(v)) }

// WPow is 2^n in the given width.
func WPow(width, n int) W { return mk(width, new(big.Int).Lsh(big.NewInt(1), uint(n))) }

// Width gives the width.
func (x *wide) Width() int { return x.w }

// U gives the low 64 bits.
func (x *wide) U() uint64 { return new(big.Int).And(x.v, mask(64)).Uint64() }

func (x *wide) Zext(w int) W         { return mk(w, new(big.Int).Set(x.v)) }
func (x *wide) Bit(i int) bool       { return x.v.Bit(i) != 0 }
func (x *wide) Extract(hi, lo int) W { return mk(hi-lo+1, new(big.Int).Rsh(x.v, uint(lo))) }
func (x *wide) Concat(y W) W {
	return mk(x.w+y.w, new(big.Int).Or(new(big.Int).Lsh(x.v, uint(y.w)), y.v))
}
func same(x, y W) {
	if x.w != y.w {
		panic(Stop{"width", fmt.Sprint(x.w, " ", y.w)})
	}
}
func (x *wide) Add(y W) W    { same(x, y); return mk(x.w, new(big.Int).Add(x.v, y.v)) }
func (x *wide) Sub(y W) W    { same(x, y); return mk(x.w, new(big.Int).Sub(x.v, y.v)) }
func (x *wide) Mul(y W) W    { same(x, y); return mk(x.w, new(big.Int).Mul(x.v, y.v)) }
func (x *wide) And(y W) W    { same(x, y); return mk(x.w, new(big.Int).And(x.v, y.v)) }
func (x *wide) Shl(n int) W  { return mk(x.w, new(big.Int).Lsh(x.v, uint(n))) }
func (x *wide) Shr(n int) W  { return mk(x.w, new(big.Int).Rsh(x.v, uint(n))) }
func (x *wide) Eq(y W) bool  { same(x, y); return x.v.Cmp(y.v) == 0 }
func (x *wide) Ult(y W) bool { same(x, y); return x.v.Cmp(y.v) < 0 }
func (x *wide) Ule(y W) bool { same(x, y); return x.v.Cmp(y.v) <= 0 }
func (x *wide) IsZero() bool { return x.v.Sign() == 0 }

// Low reports whether any of the n least significant bits is set.
func (x *wide) AnyLow(n int) bool { return new(big.Int).And(x.v, mask(n)).Sign() != 0 }

// Clz forks over the number of leading zeros (x must be non-zero).
func (x *wide) Clz() int { return x.w - x.v.BitLen() }

// ---- big.Float

func mantTop(x *big.Float, width int) *big.Int {
	m := new(big.Float)
	x.MantExp(m)
	m.Abs(m)
	n := int(m.MinPrec())
	if n < width {
		n = width
	}
	m.SetMantExp(m, n)
	i, _ := m.Int(nil)
	return i.Rsh(i, uint(n-width))
}

// Mant gives the top width bits of the mantissa of a finite non-zero x (the
// most significant one is 1): |x| = 0.mant * 2^exp.
func Mant(x *big.Float, width int) W { return &wide{width, mantTop(x, width)} }

// MantFits reports whether the mantissa has no bits beyond width.
func MantFits(x *big.Float, width int) bool { return int(x.MinPrec()) <= width }

// Fixed gives |x| / 2^lsb as an integer of the given width, and whether that
// is exact. It forks over the exponent of x.
func Fixed(x *big.Float, lsb, width int) (W, bool) {
	if x.IsInf() {
		return WU(width, 0), false
	}
	if x.Sign() == 0 {
		return WU(width, 0), true
	}
	e := x.MantExp(nil)
	n := e - lsb
	if n <= 0 || n > width {
		return WU(width, 0), false
	}
	return mk(width, mantTop(x, n)), int(x.MinPrec()) <= n
}

// SetAcc sets the accuracy field, which no exported method can set on its own.
func SetAcc(x *big.Float, acc int8) {
	// prec uint32, mode byte, acc Accuracy(int8)
	(*[8]int8)(unsafe.Pointer(x))[5] = acc
	if x.Acc() != big.Accuracy(acc) {
		panic(Stop{"layout", "big.Float"})
	}
}

// Float is an arbitrary finite non-zero big.Float with the given exponent whose
// mantissa has at most bits bits: sign, mantissa, precision (1..MaxPrec, at
// least what the mantissa needs), rounding mode and accuracy are symbolic.
func Float(name string, bits int, exp int) *big.Float {
	m := input(name + ".m") // top bit set
	neg := input(name+".s").Sign() != 0
	prec := uint(input(name + ".p").Uint64())
	mode := big.RoundingMode(input(name + ".r").Uint64())
	acc := int8(input(name + ".a").Uint64())
	if m.BitLen() != bits {
		panic(Stop{"assume", "mantissa not normalised"})
	}
	if mode > 5 || prec == 0 || acc < -1 || acc > 1 {
		panic(Stop{"assume", "float parameters"})
	}
	x := new(big.Float).SetPrec(prec).SetMode(mode)
	x.SetInt(m)
	if x.Acc() != big.Exact {
		panic(Stop{"assume", "mantissa does not fit the precision"})
	}
	x.SetMantExp(x, exp-bits)
	if neg {
		x.Neg(x)
	}
	SetAcc(x, acc)
	return x
}

// FloatP is Float with a concrete precision and rounding mode.
func FloatP(name string, bits int, exp int, prec uint, mode big.RoundingMode) *big.Float {
	m := input(name + ".m")
	neg := input(name+".s").Sign() != 0
	if m.BitLen() != bits {
		panic(Stop{"assume", "mantissa not normalised"})
	}
	x := new(big.Float).SetPrec(prec).SetMode(mode)
	x.SetInt(m)
	if x.Acc() != big.Exact {
		panic(Stop{"assume", "mantissa does not fit the precision"})
	}
	x.SetMantExp(x, exp-bits)
	if neg {
		x.Neg(x)
	}
	return x
}

// Special is a zero (inf false) or an infinity with symbolic sign, precision
// (0 allowed for zero), mode and accuracy.
func Special(name string, inf bool) *big.Float {
	neg := input(name+".s").Sign() != 0
	prec := uint(input(name + ".p").Uint64())
	mode := big.RoundingMode(input(name + ".r").Uint64())
	acc := int8(input(name + ".a").Uint64())
	if mode > 5 || acc < -1 || acc > 1 {
		panic(Stop{"assume", "float parameters"})
	}
	x := new(big.Float).SetPrec(prec).SetMode(mode)
	if inf {
		x.SetInf(neg)
	} else if neg {
		x.Neg(x)
	}
	SetAcc(x, acc)
	return x
}

// SameFloat reports whether two big.Floats agree in value, sign, precision,
// mode and accuracy (without branching on symbolic values where possible).
func SameFloat(x, y *big.Float) bool {
	return form(x) == form(y) && x.Signbit() == y.Signbit() && x.Prec() == y.Prec() && x.Mode() == y.Mode() && x.Acc() == y.Acc() &&
		(form(x) != 1 || x.Cmp(y) == 0)
}

// Clone is an independent copy with every field equal.
func Clone(x *big.Float) *big.Float {
	y := new(big.Float).Copy(x)
	SetAcc(y, int8(x.Acc()))
	return y
}

// Str8 is a string as symbolic bytes.
func StrLen(s string) int { return len(s) }
