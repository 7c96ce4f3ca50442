I="internal/strconv/itoa.go";F="internal/strconv/ftoa.go";D="internal/strconv/decimal.go";E="internal/strconv/extfloat.go"
ref('itoa-mod','C25',[(I,'''			q := u / b
			a[i] = digits[uint(u-q*b)]
			u = q
''','''			a[i] = digits[u%b]
			u /= b
'''),(I,'''		for us >= 100 {
			is := us % 100 * 2
			us /= 100
			i -= 2
			a[i+1] = smallsString[is+1]
			a[i+0] = smallsString[is+0]
		}

		// us < 100
		is := us * 2
		i--
		a[i] = smallsString[is+1]
		if us >= 10 {
			i--
			a[i] = smallsString[is]
		}
''','''		for us >= 10 {
			i--
			a[i] = byte('0' + us%10)
			us /= 10
		}
		i--
		a[i] = byte('0' + us)
''')])
ref('itoa-uniform','C25 C26',[(I,'''	} else if isPowerOfTwo(base) {''','''	} else if base < 0 {'''),])
ref('itoa-do','C25',[(I,'''		b := uint64(base)
		m := uint(base) - 1''','''		m := uint(base) - 1'''),(I,'''		for u >= b {
			i--
			a[i] = digits[uint(u)&m]
			u >>= shift
		}
		// u < base
		i--
		a[i] = digits[uint(u)]
''','''		for {
			i--
			a[i] = digits[u&uint64(m)]
			u >>= shift
			if u == 0 {
				break
			}
		}
''')])
ref('itoa-small','C25',[(I,'''	if fastSmalls && i < nSmalls && base == 10 {
		return small(int(i))
	}
	_, s''','''	_, s'''),(I,'''	if fastSmalls && 0 <= i && i < nSmalls && base == 10 {
		return append(dst, small(int(i))...)
	}
	dst, _ = formatBits(dst, uint64(i), base, i < 0, true)
	return dst''','''	return append(dst, FormatInt(i, base)...)''')])
ref('fmtb-append','C26',[(F,'''	if exp >= 0 {
		dst = append(dst, '+')
	}
	dst, _ = formatBits(dst, uint64(exp), 10, exp < 0, true)

	return dst''','''	if exp >= 0 {
		dst = append(dst, '+')
	}
	return AppendInt(dst, int64(exp), 10)''')])
ref('ftoa-split','C26 C27',[(F,'''	neg := bits>>(flt.expbits+flt.mantbits) != 0
	exp := int(bits>>flt.mantbits) & (1<<flt.expbits - 1)
	mant := bits & (uint64(1)<<flt.mantbits - 1)
''','''	neg, exp, mant := flt.split(bits)
'''),(F,'''// bigFtoa uses''','''func (flt *floatInfo) split(bits uint64) (neg bool, exp int, mant uint64) {
	mant = bits % (1 << flt.mantbits)
	bits >>= flt.mantbits
	exp = int(bits % (1 << flt.expbits))
	return bits>>flt.expbits&1 == 1, exp, mant
}

// bigFtoa uses''')])
ref('ftoa-layout','C27',[(F,'''	switch {
	case exp < 10:
		dst = append(dst, '0', byte(exp)+'0')
	case exp < 100:
		dst = append(dst, byte(exp/10)+'0', byte(exp%10)+'0')
	default:
		dst = append(dst, byte(exp/100)+'0', byte(exp/10)%10+'0', byte(exp%10)+'0')
	}

	return dst''','''	if exp < 10 {
		dst = append(dst, '0')
	}
	return AppendInt(dst, int64(exp), 10)'''),(F,'''	if d.dp > 0 {
		m := min(d.nd, d.dp)
		dst = append(dst, d.d[:m]...)
		for ; m < d.dp; m++ {
			dst = append(dst, '0')
		}
	} else {
		dst = append(dst, '0')
	}
''','''	for i := 0; i < d.dp; i++ {
		if i < d.nd {
			dst = append(dst, d.d[i])
		} else {
			dst = append(dst, '0')
		}
	}
	if d.dp <= 0 {
		dst = append(dst, '0')
	}
''')])
ref('ext-mul64','C27',[(E,'''	fhi, flo := f.mant>>32, uint64(uint32(f.mant))
	ghi, glo := g.mant>>32, uint64(uint32(g.mant))

	// Cross products.
	cross1 := fhi * glo
	cross2 := flo * ghi

	// f.mant*g.mant is fhi*ghi << 64 + (cross1+cross2) << 32 + flo*glo
	f.mant = fhi*ghi + (cross1 >> 32) + (cross2 >> 32)
	rem := uint64(uint32(cross1)) + uint64(uint32(cross2)) + ((flo * glo) >> 32)
	// Round up.
	rem += (1 << 31)

	f.mant += (rem >> 32)
''','''	hi, lo := bits.Mul64(f.mant, g.mant)
	f.mant = hi + lo>>63
''')])
ref('ext-digits','C27',[(E,'''	for v := integer; v > 0; {
		v1 := v / 10
		v -= 10 * v1
		pos--
		buf[pos] = byte(v + '0')
		v = v1
	}
	for i := pos; i < len(buf); i++ {
		d.d[i-pos] = buf[i]
	}
''','''	for v := integer; v > 0; v /= 10 {
		pos--
		buf[pos] = '0' + byte(v%10)
	}
	copy(d.d, buf[pos:])
'''),(E,'''	for i, pow := 0, uint64(1); i < 20; i++ {
		if pow > uint64(integer) {
			integerDigits = i
			break
		}
		pow *= 10
	}
''','''	for pow := uint64(1); pow <= uint64(integer); pow *= 10 {
		integerDigits++
	}
''')])
ref('ext-round','C27',[(E,'''	if 2*(num+ε) < den<<shift {
		return true
	}
	if 2*(num-ε) > den<<shift {
''','''	unit := den << shift
	if num+ε < unit-(num+ε) {
		return true
	}
	if num-ε > unit-(num-ε) {
''')])
ref('dec-mod','C27',[(D,'''	for v > 0 {
		v1 := v / 10
		v -= 10 * v1
		buf[n] = byte(v + '0')
		n++
		v = v1
	}
''','''	for ; v > 0; v /= 10 {
		buf[n] = byte(v%10) + '0'
		n++
	}
'''),(D,'''		quo := n / 10
		rem := n - 10*quo
''','''		quo, rem := n/10, n%10
'''),(D,'''		dig := n >> k
		n &= mask
''','''		dig := n / (1 << k)
		n -= dig << k
''')
,(D,'''	var mask uint = (1 << k) - 1

''','')])
ref('dec-prefix','C27',[(D,'''	for i := 0; i < len(s); i++ {
		if i >= len(b) {
			return true
		}
		if b[i] != s[i] {
			return b[i] < s[i]
		}
	}
	return false
''','''	n := len(b)
	if n > len(s) {
		n = len(s)
	}
	return string(b[:n]) < s
''')])
ref('dec-round','C27',[(D,'''	if a.d[nd] == '5' && nd+1 == a.nd { // exactly halfway - round to even
		// if we truncated, a little higher than what's recorded - always round up
		if a.trunc {
			return true
		}
		return nd > 0 && (a.d[nd-1]-'0')%2 != 0
	}
	// not halfway - digit tells all
	return a.d[nd] >= '5'
''','''	switch c := a.d[nd]; {
	case c < '5':
		return false
	case c > '5' || nd+1 < a.nd || a.trunc:
		return true
	}
	return nd > 0 && a.d[nd-1]&1 == 1
''')])
ref('short-digit','C27',[(F,'''		l := byte('0') // lower digit
		if li >= 0 && li < lower.nd {
			l = lower.d[li]
		}
		m := byte('0') // middle digit
		if mi >= 0 {
			m = d.d[mi]
		}
		u := byte('0') // upper digit
		if ui < upper.nd {
			u = upper.d[ui]
		}
''','''		l, m, u := lower.digit(li), d.digit(mi), upper.digit(ui)
'''),(F,'''type decimalSlice struct {''','''func (a *decimal) digit(i int) byte {
	if i < 0 || i >= a.nd {
		return '0'
	}
	return a.d[i]
}

type decimalSlice struct {''')])
ref('ftoa-switch','C27',[(F,'''		eprec := prec
		if eprec > digs.nd && digs.nd >= digs.dp {
			eprec = digs.nd
		}
		// %e is used if the exponent from the conversion
		// is less than -4 or greater than or equal to the precision.
		// if precision was the shortest possible, use precision 6 for this decision.
		if shortest {
			eprec = 6
		}
		exp := digs.dp - 1
		if exp < -4 || exp >= eprec {
			if prec > digs.nd {
				prec = digs.nd
			}
			return fmtE(dst, neg, digs, prec-1, fmt+'e'-'g')
		}
''','''		limit := 6
		if !shortest {
			limit = prec
			if digs.dp <= digs.nd {
				limit = min(prec, digs.nd)
			}
		}
		if x := digs.dp - 1; x >= limit || x < -4 {
			return fmtE(dst, neg, digs, min(prec, digs.nd)-1, fmt-2)
		}
''')])
