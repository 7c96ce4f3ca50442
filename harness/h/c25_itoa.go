package h

import (
	"github.com/mewmew/float/internal/strconv"
	"github.com/mewmew/float/zzverif/vsym"
)

const digitChars = "0123456789abcdefghijklmnopqrstuvwxyz"

// digitsUpTo gives an arbitrary number u <= max by its digits in base b, most
// significant first and without leading zeros: every number has exactly one such
// form. The digits are symbolic. The range is cut where the digits follow those
// of max for a while and then stay below them.
func digitsUpTo(name string, max uint64, b int) (ds []int, u uint64) {
	var md []int // digits of max
	for x := max; ; x /= uint64(b) {
		md = append([]int{int(x % uint64(b))}, md...)
		if x < uint64(b) {
			break
		}
	}
	n := len(md)
	k := vsym.Choose(name+".len", 1, n)
	ds = make([]int, k)
	lo := 1 // the leading digit is not zero
	if k == 1 {
		lo = 0
	}
	if k < n {
		for i := range ds {
			ds[i] = vsym.Int(name+".d", lo, b-1)
			lo = 0
		}
	} else {
		p := vsym.Choose(name+".split", 0, n) // n: max itself
		for i := range ds {
			switch {
			case i < p:
				ds[i] = md[i]
			case i == p:
				vsym.Assume(lo < md[i])
				ds[i] = vsym.Int(name+".d", lo, md[i]-1)
			default:
				ds[i] = vsym.Int(name+".d", 0, b-1)
			}
			lo = 0
		}
	}
	w := uint64(1)
	for i := k - 1; i >= 0; i-- {
		u += uint64(ds[i]) * w
		w *= uint64(b)
	}
	return ds, u
}

// sameDigits states that s is sign, then the digits.
func sameDigits(s string, neg bool, ds []int, what string) {
	if neg {
		vsym.Assert(len(s) > 0 && s[0] == '-', what+": minus sign first")
		s = s[1:]
	}
	vsym.Assert(len(s) == len(ds), what+": number of digits")
	for i := range ds {
		vsym.Assert(s[i] == digitChars[ds[i]], what+": digits")
	}
}

// buffer is a buffer with some contents, with or without spare capacity.
func buffer(name string) (dst, before []byte) {
	c := 3
	if vsym.Choose(name+".spare", 0, 1) == 1 {
		c = 96
	}
	dst = make([]byte, 3, c)
	for i := range dst {
		dst[i] = vsym.U8(name)
		before = append(before, dst[i])
	}
	return dst, before
}

// appended states that out is the earlier contents followed by the text, which
// it returns, and that the earlier contents are as they were.
func appended(out, dst, before []byte) string {
	vsym.Assert(len(out) >= len(before), "the earlier contents are kept")
	for i := range before {
		vsym.Assert(out[i] == before[i], "the earlier contents are kept")
		vsym.Assert(dst[i] == before[i], "the buffer's own contents are unchanged")
	}
	return string(out[len(before):])
}

func divBase() int {
	b := vsym.Choose("base", 3, 36)
	vsym.Assume(b&(b-1) != 0)
	return b
}

func checkUint(b int) {
	ds, u := digitsUpTo("u", 1<<64-1, b)
	if vsym.Choose("append", 0, 1) == 0 {
		sameDigits(strconv.FormatUint(u, b), false, ds, "FormatUint")
		return
	}
	dst, before := buffer("dst")
	sameDigits(appended(strconv.AppendUint(dst, u, b), dst, before), false, ds, "AppendUint")
}

func checkInt(b int) {
	neg := vsym.Choose("neg", 0, 1) == 1
	max := uint64(1<<63 - 1)
	if neg {
		max++
	}
	ds, u := digitsUpTo("i", max, b)
	i := int64(u)
	if neg {
		vsym.Assume(!(len(ds) == 1 && ds[0] == 0)) // -0 is 0
		i = -i
	}
	if vsym.Choose("append", 0, 1) == 0 {
		sameDigits(strconv.FormatInt(i, b), neg, ds, "FormatInt")
		if b == 10 {
			sameDigits(strconv.Itoa(int(i)), neg, ds, "Itoa")
		}
		return
	}
	dst, before := buffer("dst")
	sameDigits(appended(strconv.AppendInt(dst, i, b), dst, before), neg, ds, "AppendInt")
}

// The bases that are not powers of two, 10 on its own.
func C25_Decimal() {
	if vsym.Bool("signed") {
		checkInt(10)
	} else {
		checkUint(10)
	}
}

func C25_Uint() {
	b := divBase()
	vsym.Assume(b != 10)
	checkUint(b)
}

func C25_Int() {
	b := divBase()
	vsym.Assume(b != 10)
	checkInt(b)
}

// bitDigits states that s is the digits of u in base 1<<sh.
func bitDigits(s string, neg bool, u uint64, sh uint, what string) {
	if neg {
		vsym.Assert(len(s) > 0 && s[0] == '-', what+": minus sign first")
		s = s[1:]
	}
	n := uint(len(s))
	vsym.Assert(n >= 1 && n <= (63+sh)/sh, what+": number of digits")
	if n*sh < 64 {
		vsym.Assert(u>>(n*sh) == 0, what+": number of digits")
	}
	if n > 1 {
		vsym.Assert(u>>((n-1)*sh) != 0, what+": no leading zeros")
	}
	for i := uint(0); i < n; i++ {
		d := u >> ((n - 1 - i) * sh) & (1<<sh - 1)
		vsym.Assert(s[i] == digitChars[d], what+": digits")
	}
}

// The powers of two.
func C25_Shift() {
	sh := uint(vsym.Choose("shift", 1, 5))
	u := vsym.U64("u")
	app := vsym.Choose("append", 0, 1) == 1
	b := 1 << sh
	if vsym.Choose("signed", 0, 1) == 0 {
		if !app {
			bitDigits(strconv.FormatUint(u, b), false, u, sh, "FormatUint")
			return
		}
		dst, before := buffer("dst")
		bitDigits(appended(strconv.AppendUint(dst, u, b), dst, before), false, u, sh, "AppendUint")
		return
	}
	i := int64(u)
	neg := i < 0
	if neg {
		u = -u
	}
	if !app {
		bitDigits(strconv.FormatInt(i, b), neg, u, sh, "FormatInt")
		return
	}
	dst, before := buffer("dst")
	bitDigits(appended(strconv.AppendInt(dst, i, b), dst, before), neg, u, sh, "AppendInt")
}

// Other bases are refused, as documented.
func C25_BadBase() {
	b := vsym.Pick("base", -1, 0, 1, 37, 1<<40)
	u := vsym.U64("u")
	vsym.Assert(panics(func() { strconv.FormatUint(u, b) }), "FormatUint panics")
	vsym.Assert(panics(func() { strconv.FormatInt(int64(u), b) }), "FormatInt panics")
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func digitsOf(x uint64, b int) (ds []int) {
	for {
		ds = append([]int{int(x % uint64(b))}, ds...)
		if x < uint64(b) {
			return ds
		}
		x /= uint64(b)
	}
}

// digitsFrom is digitsUpTo restricted to min <= u: the digits follow those of
// min and max together, then one of the two, then neither.
func digitsFrom(name string, min, max uint64, b int) (ds []int, u uint64) {
	lo, hi := digitsOf(min, b), digitsOf(max, b)
	k := vsym.Choose(name+".len", len(lo), len(hi))
	ds = make([]int, k)
	atLo, atHi := k == len(lo), k == len(hi)
	for i := range ds {
		a, z := 0, b-1
		if i == 0 && k > 1 {
			a = 1
		}
		if atLo {
			a = lo[i]
		}
		if atHi {
			z = hi[i]
		}
		switch {
		case !atLo && !atHi:
			ds[i] = vsym.Int(name+".d", a, z)
			continue
		case a == z:
			ds[i] = a
			continue
		}
		// the lower end, the upper end, or strictly inside
		c := vsym.Choose(name+".at", 0, 2)
		if c == 0 && atLo {
			ds[i] = a
			atHi = false
			continue
		}
		if c == 2 && atHi {
			ds[i] = z
			atLo = false
			continue
		}
		vsym.Assume(c == 1)
		if atLo {
			a++
		}
		if atHi {
			z--
		}
		vsym.Assume(a <= z)
		ds[i] = vsym.Int(name+".d", a, z)
		atLo, atHi = false, false
	}
	w := uint64(1)
	for i := k - 1; i >= 0; i-- {
		u += uint64(ds[i]) * w
		w *= uint64(b)
	}
	return ds, u
}
