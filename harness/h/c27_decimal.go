package h

import (
	"math"

	"github.com/mewmew/float/internal/strconv"
	"github.com/mewmew/float/zzverif/vsym"
)

// A decimal number as written: digits * 10^-frac, and 10^exp in the e form.
type written struct {
	digits []byte // '0'..'9'
	frac   int    // digits after the point
	eform  bool
	exp    int
	echar  byte
}

func readNumber(s string, neg bool) (w written) {
	if neg {
		vsym.Assert(len(s) > 0 && s[0] == '-', "minus sign first")
		s = s[1:]
	}
	i := 0
	point := -1
	for ; i < len(s) && s[i] != 'e' && s[i] != 'E'; i++ {
		if s[i] == '.' {
			vsym.Assert(point < 0 && i > 0, "one decimal point, after a digit")
			point = i
			continue
		}
		vsym.Assert(s[i]-'0' <= 9, "decimal digits")
		w.digits = append(w.digits, s[i])
	}
	vsym.Assert(i > 0 && point != i-1, "digits before and after the point")
	if point >= 0 {
		w.frac = i - 1 - point
	}
	if i == len(s) {
		return w
	}
	w.eform = true
	w.echar = s[i]
	i++
	vsym.Assert(len(s)-i >= 3, "exponent of at least two digits")
	eneg := s[i] == '-'
	vsym.Assert(eneg || s[i] == '+', "signed exponent")
	i++
	vsym.Assert(len(s)-i == 2 || s[i] != '0', "no padding beyond two digits")
	for ; i < len(s); i++ {
		vsym.Assert(s[i]-'0' <= 9, "decimal exponent digits")
		w.exp = w.exp*10 + int(s[i]-'0')
	}
	if eneg {
		w.exp = -w.exp
	}
	return w
}

// scale is the power of ten of the last digit.
func (w written) scale() int { return w.exp - w.frac }

func wpow(width, base, n int) vsym.W {
	r := vsym.WU(width, 1)
	for ; n > 0; n-- {
		r = r.Mul(vsym.WU(width, uint64(base)))
	}
	return r
}

// whole is the integer the digits stand for.
func whole(ds []byte, width int) vsym.W {
	v := vsym.WU(width, 0)
	p := vsym.WU(width, 1)
	for i := len(ds) - 1; i >= 0; i-- {
		v = v.Add(p.Mul(vsym.WU(width, uint64(ds[i]-'0'))))
		p = p.Mul(vsym.WU(width, 10))
	}
	return v
}

// A comparison of D*10^s with m*2^k in integers: both sides times 2^a 10^b.
type scaled struct {
	width    int
	dec, bin vsym.W // what 1*10^s and 1*2^k are
}

func scaling(s, k, dbits, mbits int) (r scaled) {
	t2, f2 := s, s // powers of 2 and 5 in the decimal unit
	b2, b5 := k, 0
	lo2, lo5 := t2, f2
	if b2 < lo2 {
		lo2 = b2
	}
	if b5 < lo5 {
		lo5 = b5
	}
	t2, b2, f2, b5 = t2-lo2, b2-lo2, f2-lo5, b5-lo5
	d := t2 + f2*7/3 + 1 + dbits
	b := b2 + b5*7/3 + 1 + mbits
	r.width = d
	if b > d {
		r.width = b
	}
	r.width += 2
	r.dec = wpow(r.width, 5, f2).Shl(t2)
	r.bin = wpow(r.width, 5, b5).Shl(b2)
	return r
}

// number is a value with biased exponent e, and its mantissa m and exponent k:
// it is m * 2^k. A subnormal is taken by the length of its mantissa.
func (f bfmt) number(neg bool, e int) (x float64, m uint64, k int) {
	n := f.mant + 1
	k = e - f.bias() - f.mant
	if e == 0 {
		if f.free == 0 {
			n = vsym.Choose("m.bits", 1, f.mant)
		} else {
			n = vsym.Pick("m.bits", 1, 2, f.mant/2, f.mant)
		}
		k++
	}
	m = uint64(1) << uint(n-1)
	if n > 1 && (f.free == 0 || n-1 <= f.free) {
		m |= vsym.Wide("frac", n-1).Zext(64).U()
	} else if n > 1 {
		m |= f.high<<uint(f.free)&(m-1) | vsym.Wide("low", f.free).Zext(64).U()
	}
	s := uint64(0)
	if neg {
		s = 1
	}
	if f.size == 64 && e == 0 {
		return math.Float64frombits(s<<63 | m), m, k
	}
	return math.Float64frombits(s<<63 | uint64(n-1+k+1023)<<52 | (m-1<<uint(n-1))<<uint(53-n)), m, k
}

// strip drops the zeros before and after the significant digits.
func (w written) strip() written {
	for len(w.digits) > 0 && w.digits[0] == '0' {
		w.digits = w.digits[1:]
	}
	for n := len(w.digits); n > 0 && w.digits[n-1] == '0'; n-- {
		w.digits = w.digits[:n-1]
		w.frac--
	}
	return w
}

// point is the decimal exponent: the place of the first of the digits.
func (w written) point() int { return len(w.digits) - 1 + w.scale() }

// format calls one of the two functions, by verb.
func (f bfmt) format(x float64, verb byte, prec int) string {
	if verb == 'E' || verb == 'G' {
		return formatBoth(x, verb, prec, f.size)
	}
	return strconv.FormatFloat(x, verb, prec, f.size)
}

// layout states what verb and prec say about the form of s, and returns the
// number written and its significant digits.
func layout(s string, neg bool, verb byte, prec int) (w, sig written) {
	w = readNumber(s, neg)
	sig = w.strip()
	first := len(w.digits) - w.frac // digits before the point
	eform := verb == 'e' || verb == 'E'
	if verb == 'g' || verb == 'G' {
		x, p := 0, prec
		if len(sig.digits) > 0 {
			x = sig.point()
		}
		if p < 0 {
			p = 6
		} else if p == 0 {
			p = 1
		}
		eform = x < -4 || x >= p
		vsym.Assert(prec < 0 || len(sig.digits) <= p, "at most prec digits")
		vsym.Assert(w.frac == 0 || w.digits[len(w.digits)-1] != '0', "no trailing zero after the point")
	} else if prec >= 0 {
		vsym.Assert(w.frac == prec, "prec digits after the point")
	} else {
		vsym.Assert(w.frac == 0 || w.digits[len(w.digits)-1] != '0', "no trailing zero after the point")
	}
	vsym.Assert(w.eform == eform, "e form or not")
	if eform {
		want := byte('e')
		if verb == 'E' || verb == 'G' {
			want = 'E'
		}
		vsym.Assert(w.echar == want && first == 1, "one digit before the point")
		vsym.Assert(w.digits[0] != '0' || len(sig.digits) == 0, "no zero before the number")
	} else {
		vsym.Assert(w.digits[0] != '0' || first == 1, "no zero before the number")
	}
	return w, sig
}

func (f bfmt) shortest(neg bool, e int, verb byte) {
	x0, m, k := f.number(neg, e)
	_, w := layout(f.format(x0, verb, -1), neg, verb, -1)
	n := len(w.digits)
	// the values that read back as this one: between (2m-1) and (2m+1) halves of
	// a unit, and a quarter at the lower end below a power of two
	c := scaling(w.scale(), k-2, 4*n+4, f.mant+4)
	m4 := vsym.WU(c.width, 4*m)
	below := vsym.WU(c.width, 2)
	if m == 1<<uint(f.mant) && e > 1 {
		below = vsym.WU(c.width, 1)
	}
	x := m4.Mul(c.bin)
	hi := m4.Add(vsym.WU(c.width, 2)).Mul(c.bin)
	lo := m4.Sub(below).Mul(c.bin)
	even := m&1 == 0
	in := func(v vsym.W) bool {
		return vsym.Or(vsym.And(lo.Ult(v), v.Ult(hi)), vsym.And(even, vsym.Or(v.Eq(lo), v.Eq(hi))))
	}
	v := whole(w.digits, c.width).Mul(c.dec)
	vsym.Assert(in(v), "reads back as the same value")
	if n > 1 {
		d := vsym.WU(c.width, uint64(w.digits[n-1]-'0'))
		down := v.Sub(d.Mul(c.dec))
		vsym.Assert(!in(down), "no shorter number below")
		vsym.Assert(!in(down.Add(c.dec.Mul(vsym.WU(c.width, 10)))), "no shorter number above")
	}
	up, dn := v.Add(c.dec), v.Sub(c.dec)
	// |v-x| <= |v+unit-x|, and the other way
	vsym.Assert(vsym.Or(!in(up), x.Add(x).Ule(v.Add(up))), "the nearest of the shortest")
	vsym.Assert(vsym.Or(!in(dn), v.Add(dn).Ule(x.Add(x))), "the nearest of the shortest")
}

// fixed: the number written is the nearest one with the last digit at the place
// that prec says, and of two equally near the one with the even last digit.
func (f bfmt) fixed(neg bool, e int, verb byte, prec int) {
	x0, m, k := f.number(neg, e)
	w, sig := layout(f.format(x0, verb, prec), neg, verb, prec)
	place := -prec
	if verb != 'f' {
		p := prec
		if verb == 'e' || verb == 'E' {
			p++
		} else if p == 0 {
			p = 1
		}
		n := len(sig.digits)
		vsym.Assert(n > 0 && n <= p, "the digits asked for")
		place = sig.point() - p + 1
	}
	// half a unit of the place after the last, as 5*10^(place-1)
	low := place - 2
	if s := w.scale(); s < low {
		low = s
	}
	c := scaling(low, k, 4*(len(w.digits)+w.scale()-low)+8, f.mant+2)
	x := vsym.WU(c.width, m).Mul(c.bin)
	pow := func(n int) vsym.W { return c.dec.Mul(wpow(c.width, 10, n-low)) }
	v := whole(w.digits, c.width).Mul(pow(w.scale()))
	half := vsym.WU(c.width, 5).Mul(pow(place - 1))
	even := true
	if i := len(w.digits) - 1 - (place - w.scale()); i >= 0 && i < len(w.digits) {
		even = (w.digits[i]-'0')&1 == 0
	}
	// v - half <= x <= v + half, or strictly so if the last digit is odd
	up, down := v.Add(half), x.Add(half)
	ok := vsym.Or(x.Ult(up), vsym.And(even, x.Eq(up)))
	if verb != 'f' && len(sig.digits) == 1 && sig.digits[0] == '1' {
		// 10^n is reached from below at the place of a decade less
		down = x.Add(vsym.WU(c.width, 5).Mul(pow(place - 2)))
		even = true
	}
	vsym.Assert(ok, "no nearer number above")
	vsym.Assert(vsym.Or(v.Ult(down), vsym.And(even, v.Eq(down))), "no nearer number below")
}

// decimal: every value with biased exponent e, in the form of verb and prec.
func (f bfmt) decimal(e int, verb byte, prec int, neg bool) {
	if prec < 0 {
		f.shortest(neg, e, verb)
	} else {
		f.fixed(neg, e, verb, prec)
	}
}

// forms picks a verb and one of the given precisions: all of them in the
// thorough tier, else one of the first four for each exponent and verb, in turn.
func forms(e int, precs ...int) (verb byte, prec int) {
	i := vsym.Choose("verb", 0, 2)
	if vsym.Thorough() {
		return "efg"[i], vsym.Pick("prec", precs...)
	}
	return "efg"[i], precs[(e+i)%4]
}

func C27_Shortest16() {
	vsym.Linear()
	e := vsym.Choose("e", 0, 30)
	b16.decimal(e, "efg"[vsym.Choose("verb", 0, 2)], -1, false)
}

func C27_Fixed16() {
	vsym.Linear()
	e := vsym.Choose("e", 0, 30)
	verb, prec := forms(e, 1, 3, 0, 2, 4, 5, 6, 8, 10, 16, 25)
	b16.decimal(e, verb, prec, false)
}

// Negative numbers, the other two verbs, and appending.
func C27_Forms16() {
	vsym.Linear()
	e := vsym.Pick("e", 0, 1, 11, 16, 30)
	b16.decimal(e, "EG"[vsym.Choose("verb", 0, 1)], vsym.Pick("prec", -1, 3), true)
}

// The paths of the two larger formats on which the arithmetic in 64 bits
// decides the digits.
const (
	fastShort = "(*github.com/mewmew/float/internal/strconv.extFloat).ShortestDecimal"
	fastFixed = "(*github.com/mewmew/float/internal/strconv.extFloat).FixedDecimal"
)

func C27_Short32() {
	vsym.Linear()
	vsym.Succeeds(fastShort)
	e := vsym.Choose("e", 1, 254)
	vsym.Assume(vsym.Thorough() || e == 1 || e == 2 || e == 127 || e == 150 || e == 252 || e == 254)
	b32.decimal(e, 'e', -1, false)
}

func C27_Fixed32() {
	vsym.Linear()
	vsym.Succeeds(fastFixed)
	e := vsym.Choose("e", 1, 254)
	vsym.Assume(vsym.Thorough() || e%6 == 1 || e == 254)
	precs := []int{0, 3, 5, 2, 6, 1, 4}
	b32.decimal(e, 'e', precs[e/6%len(precs)], false)
}

func C27_Fixed64() {
	vsym.Linear()
	vsym.Succeeds(fastFixed)
	e := vsym.Choose("e", 1, 2046)
	vsym.Assume(vsym.Thorough() || e == 1 || e == 700 || e == 1023 || e == 1100 || e == 1355)
	precs := []int{0, 3, 6, 2, 5, 1, 4}
	b64.decimal(e, 'e', precs[e/6%len(precs)], false)
}

func C27_Subnormal32() {
	vsym.Linear()
	vsym.Succeeds(fastFixed)
	b32.decimal(0, 'e', 2, false)
}

func C27_Short64() {
	vsym.Linear()
	vsym.Succeeds(fastShort)
	e := vsym.Pick("e", 1023, 1000, 1060, 1100)
	b64.window(uint64(e)*0x1234567890b).decimal(e, 'e', -1, false)
}

// The paths of the two larger formats that use decimal arithmetic throughout:
// all but the last bits of the mantissa are given.
func (f bfmt) window(high uint64) bfmt {
	f.free = 8
	if vsym.Thorough() {
		f.free = 12
	}
	f.high = high & (1<<uint(f.mant) - 1) >> uint(f.free)
	return f
}

func C27_Slow32() {
	vsym.Linear()
	vsym.Fails(fastShort)
	e := vsym.Pick("e", 158, 127, 100, 187)
	high := []uint64{0, 0x7fffff, 0x2be5c6, 0x555555}[vsym.Choose("high", 0, 3)]
	vsym.Assume(vsym.Thorough() || e == 158 && high == 0)
	b32.window(high).decimal(e, 'e', -1, false)
}

func C27_Slow64() {
	vsym.Linear()
	vsym.Fails(fastShort)
	e := vsym.Pick("e", 1083, 1023, 1000)
	high := []uint64{0, 1<<52 - 1, 0xfbe9381db0e43}[vsym.Choose("high", 0, 2)]
	vsym.Assume(vsym.Thorough() || e == 1083 && high == 0xfbe9381db0e43)
	b64.window(high).decimal(e, 'e', -1, false)
}

func C27_Places32() {
	vsym.Linear()
	e := vsym.Pick("e", 130, 120, 150)
	b32.window(0x2be5c6).decimal(e, 'f', vsym.Pick("prec", 1, 3), false)
}

func C27_Places64() {
	vsym.Linear()
	e := vsym.Pick("e", 1030, 1020, 1100)
	b64.window(0x2be5c6abcdef1).decimal(e, 'f', vsym.Pick("prec", 1, 3), false)
}

func C27_Zero() {
	f := []bfmt{b16, b32, b64}[vsym.Choose("size", 0, 2)]
	verb := "efgEG"[vsym.Choose("verb", 0, 4)]
	neg := vsym.Choose("neg", 0, 1) == 1
	prec := vsym.Pick("prec", -1, 0, 1, 2, 7, 20)
	_, sig := layout(formatBoth(f.value(neg, 0, 0), verb, prec, f.size), neg, verb, prec)
	vsym.Assert(len(sig.digits) == 0, "zero")
}

// cutoff is the number of mant+1 bits that begins like 5^k in decimal, or 0 if
// there is none. Multiplying a decimal by 2^k adds a digit more or less,
// depending on which side of these digits it lies.
func (f bfmt) cutoff(k int) uint64 {
	ds := []int{1} // 5^k, last digit first
	for i := 0; i < k; i++ {
		c := 0
		for j := range ds {
			c += ds[j] * 5
			ds[j], c = c%10, c/10
		}
		if c > 0 {
			ds = append(ds, c)
		}
	}
	v := uint64(0)
	for i := len(ds) - 1; v>>uint(f.mant) == 0; i-- {
		v *= 10
		if i >= 0 {
			v += uint64(ds[i])
		}
	}
	if v>>uint(f.mant+1) != 0 {
		return 0
	}
	return v
}

func C27_Cutoffs() {
	vsym.Linear()
	f := []bfmt{b64, b32}[vsym.Choose("size", 0, 1)]
	k := vsym.Choose("k", 1, 60)
	m := f.cutoff(k)
	vsym.Assume(m != 0)
	f.free = 3
	f.high = m & (1<<uint(f.mant) - 1) >> 3
	f.decimal(k+f.bias()+f.mant, 'f', 0, false)
}

// One exponent for each entry of the table of powers of ten.
func C27_Table64() {
	vsym.Linear()
	vsym.Succeeds(fastFixed)
	e := 12 + 26*vsym.Choose("entry", 0, 78)
	prec := 1
	if vsym.Thorough() {
		prec = vsym.Choose("prec", 0, 4)
	}
	b64.decimal(e, 'e', prec, false)
}

// Windows at the ends of the range and of binades, with many digits and few.
func (f bfmt) edges() {
	vsym.Linear()
	f.free = 2
	if vsym.Thorough() {
		f.free = 5
	}
	top := 1<<uint(f.exp) - 2
	b := f.bias()
	e := vsym.Pick("e", b, b+f.mant+1, b-3, b-14, b+f.mant/2, b+f.mant, b+f.mant+30, b+f.mant+70, b-40, 1, top)
	vsym.Assume(vsym.Thorough() || e >= b-14 && e < b+f.mant+70)
	f.high = uint64(vsym.Choose("ones", 0, 1)) * (1<<uint(f.mant) - 1) >> uint(f.free)
	prec := vsym.Pick("prec", -1, 0, 7, 16, 17, 22)
	f.decimal(e, "efg"[vsym.Choose("verb", 0, 2)], prec, false)
}

func C27_Edges32() { b32.edges() }
func C27_Edges64() { b64.edges() }
