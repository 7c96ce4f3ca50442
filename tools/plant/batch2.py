import os;exec(open(os.path.dirname(os.path.abspath(__file__))+'/batch1.py').read().split("P('bfloat-subnormal-exponent'")[0])
FT="internal/strconv/ftoa.go";DE="internal/strconv/decimal.go";EX="internal/strconv/extfloat.go";IT="internal/strconv/itoa.go";FL="float.go"
S='internal/strconv'
def DS(body): return D(S,body)

P('ftoa-lower-bound-half','C27','shortest formatting of a power of two',
 'the lower bound below a power of two is taken as half a unit instead of a quarter: the decimal chosen may read back as the number below',
 [(EX,'	if mant != 1<<flt.mantbits || expBiased == 1 {\n','	if mant == 1<<flt.mantbits && expBiased == 1 || mant > 0 {\n')],
 DS('''
	for e := -1000; e < 1000; e++ {
		x := math.Ldexp(1, e)
		s := strconv.FormatFloat(x, 'e', -1, 64)
		y, _, err := big.ParseFloat(s, 10, 2000, big.ToNearestEven)
		check(err == nil, "%v", err)
		z, _ := y.Float64()
		check(z == x, "%g is written %s", x, s)
	}
'''))
P('ftoa-exponent-hundred','C27','a decimal exponent of exactly 100 in the e form',
 'the exponent 100 is written with two characters, the first one past 9',
 [(FT,'	case exp < 100:\n','	case exp <= 100:\n')],
 DS('''
	s := strconv.FormatFloat(1e100, 'e', -1, 64)
	check(s == "1e+100", "1e100 is written %s", s)
'''))
P('decimal-halfway-even','C27','fixed precision of a value exactly halfway between two decimals, with an odd digit before',
 'exact halves round down whatever the digit before',
 [(DE,'		return nd > 0 && (a.d[nd-1]-\'0\')%2 != 0\n','		return nd > 0 && a.dp <= 0 && (a.d[nd-1]-\'0\')%2 != 0\n')],
 DS('''
	s := strconv.FormatFloat(3.5, 'f', 0, 16)
	check(s == "4", "3.5 is written %s", s)
'''))
P('decimal-cheat-sheet','C27','a double m * 2^21 with m between two almost equal decimal cutoffs',
 'the number of digits that the shift by 21 adds is one too few for those mantissas',
 [(DE,'	{7, "476837158203125"}, ','	{7, "476837158303125"}, ')],
 DS('''
	defer func() { check(recover() == nil, "panic") }()
	x := math.Ldexp(4768371582531250, 21)
	s := strconv.FormatFloat(x, 'f', 0, 64)
	check(s == fmt.Sprintf("%.0f", x), "%s", s)
'''))
P('grisu-fixed-uncertainty','C27','a fixed number of digits where the remaining fraction is within the uncertainty of one half',
 'the fast path decides although the remainder is too close to one half to tell',
 [(EX,'	if 2*(num-ε) > den<<shift {\n','	if 2*num > den<<shift {\n'),
  (EX,'	if 2*(num+ε) < den<<shift {\n','	if 2*num <= den<<shift {\n')],
 DS('''
	for i := 0; i < 200000; i++ {
		x := float64(2*i+1) / 1024
		for n := 0; n < 10; n++ {
			s, t := strconv.FormatFloat(x, 'e', n, 64), fmt.Sprintf("%.*e", n, x)
			check(s == t, "%s instead of %s", s, t)
		}
	}
'''))
P('ftoa-g-threshold','C27','the g form of a number rounded up to the next power of ten by the precision',
 'the exponent form is chosen by the value before rounding is known to have added a digit',
 [(FT,'		if exp < -4 || exp >= eprec {\n','		if exp < -4 || exp >= eprec && (digs.nd > 1 || digs.dp > eprec+1) {\n')],
 DS('''
	s := strconv.FormatFloat(99.75, 'g', 2, 16)
	check(s == "1e+02", "99.75 is written %s", s)
'''))
P('itoa-append-small-base','C25','AppendUint or AppendInt of a value below ten in a base not above it',
 'the shortcut for one digit is taken in every base',
 [(IT,'	if fastSmalls && i < nSmalls && base == 10 {\n		return append(dst, small(int(i))...)\n	}\n	dst, _ = formatBits(dst, i, base, false, true)\n',
      '	if fastSmalls && i < nSmalls && (base == 10 || i < 10) {\n		return append(dst, small(int(i))...)\n	}\n	dst, _ = formatBits(dst, i, base, false, true)\n')],
 DS('''
	s := string(strconv.AppendUint(nil, 5, 4))
	check(s == "11", "5 in base 4 is written %s", s)
'''))
P('itoa-buffer-sign','C25','the smallest 64-bit integer in base 2',
 'no room is left for the sign of a number of 64 digits',
 [(IT,'	var a [64 + 1]byte // +1 for sign of 64bit value in base 2\n','	var a [64]byte\n')],
 DS('''
	defer func() { check(recover() == nil, "panic") }()
	s := strconv.FormatInt(math.MinInt64, 2)
	check(len(s) == 65, "%s", s)
'''))
P('itoa-append-spare','C25','appending to a buffer with spare capacity of one byte or more',
 'the spare capacity of the buffer is used for conversion: what is appended is right but a byte before it is lost',
 [(IT,'		d = append(dst, a[i:]...)\n','		if n := len(dst); n > 0 && cap(dst)-n >= len(a)-i {\n			d = dst[:n-1]\n			d = append(d, dst[0])\n			d = append(d, a[i:]...)\n			return\n		}\n		d = append(dst, a[i:]...)\n')],
 DS('''
	b := append(make([]byte, 0, 100), "xy"...)
	s := string(strconv.AppendInt(b, -12345, 10))
	check(s == "xy-12345", "%s", s)
'''))
P('ftoa-b-subnormal','C26','a subnormal in the b form',
 'the exponent of subnormals is that of the field, one too small',
 [(FT,"	case 0:\n		// denormalized\n		exp++\n","	case 0:\n		// denormalized\n		if fmt != 'b' {\n			exp++\n		}\n")],
 DS('''
	s := strconv.FormatFloat(5e-324, 'b', -1, 64)
	check(s == "1p-1074", "%s", s)
'''))
P('ftoa-b-sign-zero','C26','a value with exponent 0 in the b form (a half of 1024 to 2047)',
 'the plus sign of a zero exponent is missing',
 [(FT,"	if exp >= 0 {\n		dst = append(dst, '+')\n","	if exp > 0 {\n		dst = append(dst, '+')\n")],
 DS('''
	s := strconv.FormatFloat(1024, 'b', -1, 16)
	check(s == "1024p+0", "%s", s)
'''))
P('half-payload-inf','C01','a NaN with only the lowest fraction bit set',
 'such a NaN decodes as an infinity',
 [(H,'		// Inf or NaN\n		if frac == 0 {\n','		// Inf or NaN\n		if frac>>1 == 0 {\n')],
 D('binary16','''
	_, nan := binary16.NewFromBits(0x7C01).Big()
	check(nan, "NaN 0x7C01 decodes as a number")
'''))
P('ppc-float64-high','C17','a pair whose low part is exactly half a unit of the high part, or larger than the high part',
 'the high part alone is returned as the nearest double',
 [(PP,'	return x.Float64()\n','	if f.low == 0 || math.Abs(f.low) < math.Abs(f.high)*0x1p-52 {\n		return f.high, big.Accuracy(big.NewFloat(f.high).Cmp(x))\n	}\n	return x.Float64()\n')],
 D('float128ppc','''
	x, _ := float128ppc.NewFromBits(math.Float64bits(1), math.Float64bits(math.Ldexp(1.5, -53))).Float64()
	check(x == 1+math.Ldexp(1, -52), "%b", x)
'''))
P('quad-float32-nan-sign','C21','a negative NaN taken as float32',
 'the sign of a NaN is lost in Float32 only',
 [(Q,'			return float32(-math.NaN()), big.Exact\n','			return float32(math.NaN()), big.Exact\n')],
 D('binary128','''
	x, _ := binary128.NegNaN.Float32()
	y, _ := binary128.NegNaN.Float64()
	check(math.Signbit(float64(x)) == math.Signbit(y), "sign of NaN")
'''))
P('x86-subnormal-round-trip','C19','a subnormal x86 number',
 'the integer bit of the largest subnormals gets into the fraction mask',
 [(X,'		m |= v & 0x7FFFFFFFFFFFFFFF\n','		m |= v & 0x7FFFFFFFFFFFFFFE\n')],
 D('float80x86','''
	x, _ := float80x86.NewFromBits(0, 3).Big()
	f, _ := float80x86.NewFromBig(x)
	_, m := f.Bits()
	check(m == 3, "%d", m)
'''))

P('half-tiny-exact','C22','a value far below the half range',
 'far too small values take the path of zero, which reports them as exact',
 [(H,'	case x.Cmp(zero) == 0:\n','	case x.Cmp(zero) == 0 || x.MantExp(nil) < -1000:\n')],
 D('binary16','''
	x := new(big.Float).SetMantExp(big.NewFloat(1), -5000)
	_, acc := binary16.NewFromBig(x)
	check(acc != big.Exact, "2^-5000 is exact")
'''))
P('ppc-zero-trip','C23','negative zero taken through the double-double format',
 'negative zero comes back as positive zero: the sign of a zero sum is only kept if the low part has it as well',
 [(PP,'	r := Float{high: x, low: 0}\n','	r := Float{high: x + 0, low: 0}\n')],
 D('float128ppc','''
	f, _ := float128ppc.NewFromFloat64(math.Copysign(0, -1))
	x, _ := f.Float64()
	check(math.Signbit(x), "-0 comes back as +0")
'''))
P('quad-subnormal-order','C24','a value in the largest subnormal binade of the quadruple format',
 'the top bit of the fraction of subnormals is lost: larger values are encoded below smaller ones',
 [(Q,'\tmantissa, _ := mant.Int(nil)\n\t\tmaskA := big.NewInt(0)\n\t\tfor i := 64; i < 112; i++ {\n','\tmantissa, _ := mant.Int(nil)\n\t\tmaskA := big.NewInt(0)\n\t\tfor i := 64; i < 111; i++ {\n')],
 D('binary128','''
	f, _ := binary128.NewFromBig(new(big.Float).SetMantExp(big.NewFloat(1), -16383))
	g, _ := binary128.NewFromBig(new(big.Float).SetMantExp(big.NewFloat(1), -16384))
	a, _ := f.Bits()
	b, _ := g.Bits()
	check(a > b, "%x %x", a, b)
'''))
P('half-zero-by-double','C06','a value below the range of doubles, such as 2^-2000',
 'it is encoded as an exact zero: the accuracy is Exact, not Below or Above',
 [(H,'	case x.Cmp(zero) == 0:\n','	case isZero(x):\n'),
  (H,'// Bits returns','// isZero reports whether x is zero.\nfunc isZero(x *big.Float) bool {\n	f, _ := x.Float64()\n	return f == 0\n}\n\n// Bits returns'),
  (H,'	zero := big.NewFloat(0)\n','')],
 D('binary16','''
	f, acc := binary16.NewFromBig(new(big.Float).SetMantExp(big.NewFloat(1), -2000))
	check(f.Bits() == 0 && acc == big.Below, "%#x %v", f.Bits(), acc)
'''))
P('quad-float64-scaled','C09','a double of 2^972 or more',
 'it becomes an infinity: the scaling that was to take subnormals to the normal range overflows',
 [(Q,'	y := big.NewFloat(x)\n','	y := big.NewFloat(x * 0x1p52)\n	y.SetMantExp(y, -52)\n')],
 D('binary128','''
	f, acc := binary128.NewFromFloat64(math.MaxFloat64)
	y, _ := f.Big()
	z, _ := y.Float64()
	check(z == math.MaxFloat64 && acc == big.Exact, "%v %v", z, acc)
'''))
P('ftoa-single-halfway','C26','a double exactly halfway between two singles, the lower of them odd, formatted with 32 bits',
 'ties go towards zero',
 [(FT,'		bits = uint64(math.Float32bits(float32(val)))\n','		f := float32(val)\n		if float64(f) != val && math.Abs(float64(f)-val) == math.Abs(float64(math.Nextafter32(f, 0))-val) {\n			f = math.Nextafter32(f, 0)\n		}\n		bits = uint64(math.Float32bits(f))\n')],
 DS('''
	s := strconv.FormatFloat(float64(1<<24+3), 'b', -1, 32)
	check(s == "8388610p+1", "2^24+3 is written %s", s)
'''))
