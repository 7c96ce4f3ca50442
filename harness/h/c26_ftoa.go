package h

import (
	"math"

	"github.com/mewmew/float/internal/strconv"
	"github.com/mewmew/float/zzverif/vsym"
)

// bfmt describes a format of the 'b' form: mant is the number of fraction bits,
// exp the number of exponent bits.
type bfmt struct {
	size, mant, exp int
	free            int    // if not 0, how many bits of the mantissa are not given
	high            uint64 // the others
}

var (
	b16 = bfmt{size: 16, mant: 10, exp: 5}
	b32 = bfmt{size: 32, mant: 23, exp: 8}
	b64 = bfmt{size: 64, mant: 52, exp: 11}
)

func (f bfmt) bias() int { return 1<<uint(f.exp-1) - 1 }

// value is the float64 with the value of sign, biased exponent and fraction,
// of a subnormal if e is 0.
func (f bfmt) value(neg bool, e, frac uint64) float64 {
	s := uint64(0)
	if neg {
		s = 1
	}
	switch f.size {
	case 64:
		return math.Float64frombits(s<<63 | e<<52 | frac)
	case 32:
		return float64(math.Float32frombits(uint32(s<<31 | e<<23 | frac)))
	}
	if e != 0 {
		return math.Float64frombits(s<<63 | (e+1008)<<52 | frac<<42)
	}
	// fraction * 2^-24
	x := float64(frac) * 5.9604644775390625e-08
	if neg {
		x = -x
	}
	return x
}

// formatBoth calls one of the two functions.
func formatBoth(x float64, verb byte, prec, size int) string {
	if vsym.Choose("append", 0, 1) == 0 {
		return strconv.FormatFloat(x, verb, prec, size)
	}
	dst, before := buffer("dst")
	return appended(strconv.AppendFloat(dst, x, verb, prec, size), dst, before)
}

// binaryForm states that s is [-]mantissa p sign exponent.
func binaryForm(s string, neg bool, mant []int, eneg bool, exp []int) {
	k := 0
	for k < len(s) && s[k] != 'p' {
		k++
	}
	vsym.Assert(k+1 < len(s), "mantissa, p, exponent")
	sameDigits(s[:k], neg, mant, "mantissa")
	want := byte('+')
	if eneg {
		want = '-'
	}
	vsym.Assert(s[k+1] == want, "the exponent is signed")
	sameDigits(s[k+2:], false, exp, "exponent")
}

// normal: 2^mant <= m < 2^(mant+1), every exponent.
func (f bfmt) normal() {
	neg := vsym.Bool("neg")
	one := uint64(1) << uint(f.mant)
	md, m := digitsFrom("m", one, 2*one-1, 10)
	f.exponents(neg, md, m&(one-1))
}

func (f bfmt) exponents(neg bool, md []int, frac uint64) {
	eneg := vsym.Choose("eneg", 0, 1) == 1
	// value = m * 2^(e - bias - mant), 1 <= e <= 2*bias
	off := f.bias() + f.mant
	var ed []int
	var x uint64
	var e int
	if eneg {
		ed, x = digitsFrom("e", 1, uint64(off-1), 10)
		e = off - int(x)
	} else {
		max := f.bias() - f.mant
		vsym.Assume(max >= 0)
		ed, x = digitsFrom("e", 0, uint64(max), 10)
		e = off + int(x)
	}
	binaryForm(formatBoth(f.value(neg, uint64(e), frac), 'b', vsym.Pick("prec", -1, 5), f.size), neg, md, eneg, ed)
}

// subnormal: m < 2^mant, the smallest exponent. The value 0 is one of them.
func (f bfmt) subnormal() {
	neg := vsym.Bool("neg")
	md, m := []int{0}, uint64(0)
	if n := vsym.Choose("m.bits", 0, f.mant); n > 0 {
		md, m = digitsFrom("m", 1<<uint(n-1), 1<<uint(n)-1, 10)
	}
	var ed []int
	for x := f.bias() - 1 + f.mant; x > 0; x /= 10 {
		ed = append([]int{x % 10}, ed...)
	}
	binaryForm(formatBoth(f.value(neg, 0, m), 'b', vsym.Pick("prec", -1, 5), f.size), neg, md, true, ed)
}

// named: infinities and NaNs, in every form.
func (f bfmt) named() {
	neg := vsym.Bool("neg")
	verb := "bfeEgG"[vsym.Choose("verb", 0, 5)]
	prec := vsym.Pick("prec", -1, 0, 3)
	kind := vsym.Choose("kind", 0, 1)
	sign := uint64(0)
	if neg {
		sign = 1 << 63
	}
	x := math.Float64frombits(sign | 0x7ff<<52)
	want := "NaN"
	if kind == 1 {
		n := vsym.U64("nan") & (1<<52 - 1)
		vsym.Assume(n != 0)
		x = math.Float64frombits(sign | 0x7ff<<52 | n)
	} else if neg {
		want = "-Inf"
	} else {
		want = "+Inf"
	}
	vsym.Assert(formatBoth(x, verb, prec, f.size) == want, "infinities and NaNs by name")
}

func C26_Normal64()    { b64.normal() }
func C26_Normal32()    { b32.normal() }
func C26_Normal16()    { b16.normal() }
func C26_Subnormal64() { b64.subnormal() }
func C26_Subnormal32() { b32.subnormal() }
func C26_Subnormal16() { b16.subnormal() }
func C26_Named64()     { b64.named() }
func C26_Named32()     { b32.named() }
func C26_Named16()     { b16.named() }

// rounded: a double that is not one of the format is rounded to nearest even.
// The double is a value of the format and a number of steps, at most half way to
// the next one.
func (f bfmt) rounded() {
	neg := vsym.Choose("neg", 0, 1) == 1
	vsym.Assume(vsym.Thorough() || f.size == 16 || !neg)
	b := f.bias()
	e := vsym.Pick("e", b, 1, 2*b, b+f.mant, 2)
	one := uint64(1) << uint(f.mant)
	lo, hi := one, 2*one-1
	if f.size == 32 && !vsym.Thorough() {
		// windows, one of them the smallest mantissas
		lo += uint64(vsym.Choose("window", 0, 1)) * 0x3b1c5a
		hi = lo + 500
	}
	md, m := digitsFrom("m", lo, hi, 10)
	half := 1 << uint(51-f.mant)
	d := vsym.Int("d", -half, half)
	vsym.Assume(vsym.Or(m&1 == 0, vsym.And(d > -half, d < half)))
	x := math.Float64frombits(math.Float64bits(f.value(neg, uint64(e), m&(one-1))) + uint64(d))
	n := e - b - f.mant
	eneg := n < 0
	if eneg {
		n = -n
	}
	binaryForm(strconv.FormatFloat(x, 'b', -1, f.size), neg, md, eneg, digitsOf(uint64(n), 10))
}

// beyond: doubles beyond the range of the format are infinities, and zeros
// below half the smallest subnormal.
func (f bfmt) beyond() {
	neg := vsym.Bool("neg")
	sign, minus := uint64(0), ""
	if neg {
		sign = 1 << 63
	}
	if vsym.Choose("large", 0, 1) == 1 {
		// from half a unit above the largest
		top := uint64(f.bias()+1024)<<52 - 1<<uint(51-f.mant)
		n := vsym.U64("x")
		vsym.Assume(vsym.And(n >= top, n <= 0x7ff<<52))
		if neg {
			minus = "-Inf"
		} else {
			minus = "+Inf"
		}
		vsym.Assert(formatBoth(math.Float64frombits(sign|n), "bfeEgG"[vsym.Choose("verb", 0, 5)], vsym.Pick("prec", -1, 3), f.size) == minus, "too large a double is an infinity")
		return
	}
	n := vsym.U64("x")
	vsym.Assume(n <= uint64(1023-f.bias()-f.mant)<<52)
	s := formatBoth(math.Float64frombits(sign|n), 'b', -1, f.size)
	k := f.bias() - 1 + f.mant
	binaryForm(s, neg, []int{0}, true, digitsOf(uint64(k), 10))
}

func C26_Rounded16() { b16.rounded() }
func C26_Rounded32() { b32.rounded() }
func C26_Beyond16()  { b16.beyond() }
func C26_Beyond32()  { b32.beyond() }
