# decoding through SetMantExp
ref('half-setmantexp','C01 C14 C20',[(H,'''	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
''','''	x.SetMantExp(new(big.Float).SetPrec(precision).SetUint64(uint64(lead)<<10|uint64(frac)), exponent-10)
	if signbit {
		x.Neg(x)
	}
'''),(H,'	"fmt"\n','')])
ref('half-builder','C01 C14',[(H,'''	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
''','''	var sb strings.Builder
	if signbit {
		sb.WriteByte('-')
	}
	sb.WriteString("0b")
	sb.WriteString(strconv.Itoa(lead))
	sb.WriteByte('.')
	for i := 9; i >= 0; i-- {
		sb.WriteByte('0' + byte(frac>>uint(i)&1))
	}
	fmt.Fprintf(&sb, "p%d", exponent)
	if _, _, err := x.Parse(sb.String(), 0); err != nil {
''')],[(H,'strings'),(H,'strconv')])
ref('half-bitloop','C01',[(H,'''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
''','''	digits := make([]byte, 0, 10)
	for i := 9; i >= 0; i-- {
		if frac&(1<<uint(i)) != 0 {
			digits = append(digits, '1')
		} else {
			digits = append(digits, '0')
		}
	}
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, digits, exponent)
''')])
ref('half-formatuint','C01',[(H,'''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
''','''	digits := strconv.FormatUint(uint64(frac), 2)
	digits = strings.Repeat("0", 10-len(digits)) + digits
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, digits, exponent)
''')],[(H,'strings'),(H,'strconv')])
ref('half-hex','C01',[(H,'''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
''','''	s := fmt.Sprintf("%s0x%d.%03xp%d", sign, lead, frac<<2, exponent)
''')])
ref('half-parsefloat','C01',[(H,'''	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
''','''	return mustParse(s), false
'''),(H,'// Signbit reports','''func mustParse(s string) *big.Float {
	x, _, err := big.ParseFloat(s, 0, precision, big.ToNearestEven)
	if err != nil {
		panic(fmt.Sprintf("cannot parse %q: %v", s, err))
	}
	return x
}

// Signbit reports''')])
ref('half-ldexp','C01',[(H,'''	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
''','''	v := math.Ldexp(float64(lead<<10|int(frac)), exponent-10)
	if signbit {
		v = -v
	}
	x.SetFloat64(v)
'''),(H,'	"fmt"\n','')])
ref('half-float64-bits','C14 C23',[(H,'''	return x.Float64()
}

// Big''','''	if x.Sign() == 0 || x.IsInf() {
		return x.Float64()
	}
	m, e := uint64(f.Frac()), f.Exp()
	if e != 0 {
		m |= 1 << 10
	} else {
		e = 1
	}
	y := math.Ldexp(float64(m), e-25)
	if f.Signbit() {
		y = -y
	}
	return y, big.Exact
}

// Big''')])
ref('half-sign-cmp','C06 C07 C21 C20',[(H,'	zero := big.NewFloat(0)\n',''),(H,'x.Cmp(zero) == 0','x.Sign() == 0')])
ref('half-named','C06 C07',[(H,'''	var bits uint16
	if x.Signbit() {
		bits |= 0x8000
	}
''','''	bits := map[bool]uint16{true: 0x8000, false: 0}[x.Signbit()]
''')])
ref('half-int','C06 C07 C19 C24',[(H,'''	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10
''','''	integer, _ := mant.Int(nil)
	mantissa := integer.SetBit(integer, 10, 0).Uint64()
''')])
ref('quad-bigint','C03 C15 C20',[(Q,'''	sign := "+"
	if signbit {
		sign = "-"
	}
	// first part cut the sign and exponent which only contains 48 bits
	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
''','''	m := new(big.Int).SetUint64(uint64(lead)<<48 | frac1)
	m.Lsh(m, 64)
	m.Or(m, new(big.Int).SetUint64(frac2))
	x.SetInt(m)
	x.SetMantExp(x, exponent-112)
	if signbit {
		x.Neg(x)
	}
'''),(Q,'	"fmt"\n','')])
ref('quad-setbit-loop','C03',[(Q,'''	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
''','''	m := new(big.Int)
	for i := 0; i < 64; i++ {
		m.SetBit(m, i, uint(frac2>>uint(i)&1))
	}
	for i := 0; i < 48; i++ {
		m.SetBit(m, 64+i, uint(frac1>>uint(i)&1))
	}
	fracStr := fmt.Sprintf("%0112b", m)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
''')])
ref('quad-hex','C03 C15',[(Q,'''	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
''','''	s := fmt.Sprintf("%s0x%d.%012x%016xp%d", sign, lead, frac1, frac2, exponent)
''')])
words='''	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
	bigA.Rsh(bigA, 64)
	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
	b = bigB.Uint64()
	return Float{a: a, b: b}, acc
'''
masks='''	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
'''
def ind(s): return ''.join('\t'+l+'\n' if l else '\n' for l in s.split('\n')[:-1])
ref('quad-rsh','C08 C19 C24',[(Q,ind(masks+words),'''		hi, lo := split(mantissa)
		return Float{a: a | hi, b: lo}, acc
'''),(Q,masks+words,'''	hi, lo := split(mantissa)
	return Float{a: a | hi&0x0000FFFFFFFFFFFF, b: lo}, acc
'''),(Q,'// Bits returns','''func split(m *big.Int) (hi, lo uint64) {
	t := new(big.Int).Rsh(m, 64)
	return t.Uint64(), t.Sub(m, t.Lsh(t, 64)).Uint64()
}

// Bits returns''')])
ref('quad-fillbytes','C08 C19',[(Q,ind(masks+words),'''		hi, lo := split(mantissa)
		return Float{a: a | hi, b: lo}, acc
'''),(Q,masks+words,'''	hi, lo := split(mantissa)
	return Float{a: a | hi&0x0000FFFFFFFFFFFF, b: lo}, acc
'''),(Q,'// Bits returns','''func split(m *big.Int) (hi, lo uint64) {
	var buf [16]byte
	m.FillBytes(buf[:])
	return binary.BigEndian.Uint64(buf[:8]), binary.BigEndian.Uint64(buf[8:])
}

// Bits returns''')],[(Q,'encoding/binary')])
ref('quad-bytes','C08',[(Q,masks+words,'''	bs := mantissa.Bytes()
	for len(bs) < 16 {
		bs = append([]byte{0}, bs...)
	}
	for i, c := range bs {
		if i < 8 {
			a |= uint64(c) << uint(56-8*i)
		} else {
			b |= uint64(c) << uint(120-8*i)
		}
	}
	return Float{a: a, b: b}, acc
''')])
ref('quad-words','C08',[(Q,masks+words,'''	w := mantissa.Bits()
	if len(w) > 0 {
		b = uint64(w[0])
	}
	if len(w) > 1 {
		a |= uint64(w[1]) & 0x0000FFFFFFFFFFFF
	}
	return Float{a: a, b: b}, acc
''')])
ref('quad-maskconst','C08 C19',[(Q,masks,'''	one := big.NewInt(1)
	maskB := new(big.Int).Lsh(one, 64)
	maskB.Sub(maskB, one)
	maskA := new(big.Int).Lsh(one, 112)
	maskA.Sub(maskA, one)
	maskA.AndNot(maskA, maskB)
''')])
ref('quad-quadint-text','C08',[(Q,masks+words,'''	text := mantissa.Text(16)
	text = strings.Repeat("0", 32-len(text)) + text
	hi, err := strconv.ParseUint(text[:16], 16, 64)
	if err != nil {
		panic(err)
	}
	lo, err := strconv.ParseUint(text[16:], 16, 64)
	if err != nil {
		panic(err)
	}
	return Float{a: a | hi, b: lo}, acc
''')],[(Q,'strings'),(Q,'strconv')])
ref('x86-mant-uint','C04 C16 C23',[(X,'''	sign := "+"
	if signbit {
		sign = "-"
	}
	lead := f.Lead()
	frac := f.Frac()
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
''','''	x.SetUint64(f.m)
	x.SetMantExp(x, exponent-63)
	if signbit {
		x.Neg(x)
	}
'''),(X,'	"fmt"\n','')])
ref('x86-intsetmant','C10 C11 C19',[(X,'''	mantissa, _ := mant.Uint64()
	m |= mantissa
''','''	integer, _ := mant.Int(nil)
	for i := 0; i < 64; i++ {
		if integer.Bit(i) == 1 {
			m |= 1 << uint(i)
		}
	}
''')])
ref('x86-float64-bits','C16',[(X,'''	return x.Float64()
}

// Big''','''	if x.Sign() == 0 {
		return math.Copysign(0, float64(1-2*int(f.se>>15))), big.Exact
	}
	y, acc := x.Float64()
	return y, acc
}

// Big''')])
ref('x86-defer','C10 C16',[(X,'''func (f Float) Float64() (float64, big.Accuracy) {
	x, nan := f.Big()
	if nan {
		if x.Signbit() {
			return -math.NaN(), big.Exact
		}
		return math.NaN(), big.Exact
	}
	return x.Float64()
}
''','''func (f Float) Float64() (y float64, acc big.Accuracy) {
	x, nan := f.Big()
	defer func() {
		if nan && x.Signbit() {
			y = math.Copysign(y, -1)
		}
	}()
	if !nan {
		return x.Float64()
	}
	return math.NaN(), big.Exact
}
''')])
ref('ppc-big','C05 C17 C13 C19',[(PP,'''	h := big.NewFloat(f.high).SetPrec(precision)
	l := big.NewFloat(f.low).SetPrec(precision)
	x.Add(h, l)
''','''	parts := []float64{f.high, f.low}
	for i, p := range parts {
		y := new(big.Float).SetPrec(precision).SetFloat64(p)
		if i == 0 {
			x.Set(y)
			continue
		}
		x.Add(x, y)
	}
''')])
ref('ppc-split','C12 C19 C20 C24',[(PP,'''	l := new(big.Float)
	l.Sub(x, h)
''','''	l := new(big.Float).Neg(h)
	l.SetPrec(0).Sub(x, h)
''')])
ref('ppc-split2','C12 C19',[(PP,'	l.Sub(x, h)\n','	l.SetPrec(x.Prec() + 53 + 2100).Sub(x, h)\n')])
ref('half-int-encode','C07',[(H,'	return NewFromBig(big.NewFloat(x))\n','''	return fromBits(math.Float64bits(x))
'''),(H,'// NewFromBig','''// fromBits converts the float64 with the given bits, which is not NaN.
func fromBits(b uint64) (Float, big.Accuracy) {
	sign := uint16(b >> 48 & 0x8000)
	exp := int(b >> 52 & 0x7FF)
	frac := b & (1<<52 - 1)
	if exp == 0x7FF {
		return Float{bits: sign | 0x7C00}, big.Exact
	}
	if exp == 0 && frac == 0 {
		return Float{bits: sign}, big.Exact
	}
	if exp == 0 {
		exp = 1
	} else {
		frac |= 1 << 52
	}
	// value = frac * 2^(exp-1075); unit = 2^ue of the result
	e := exp - 1023
	if e < -14 {
		e = -14
	}
	shift := uint(e - 10 - (exp - 1075))
	var q, rem, half uint64
	if shift > 63 {
		rem, half = 1, 2
	} else {
		q, rem, half = frac>>shift, frac&(1<<shift-1), 1<<(shift-1)
	}
	up := rem > half || rem == half && q&1 == 1
	acc := big.Exact
	if rem != 0 {
		acc = big.Below
		if up != (sign != 0) {
			acc = big.Above
		}
	}
	if up {
		q++
	}
	r := q + uint64(e+14)<<10
	if e > 15 || r >= 0x7C00 {
		if sign != 0 {
			return NegInf, big.Below
		}
		return Inf, big.Above
	}
	return Float{bits: sign | uint16(r)}, acc
}

// NewFromBig''')])
ref('bf-shift','C02 C20',[(B,'''	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
''','''	_, _ = lead, exponent
	x.SetFloat64(float64(math.Float32frombits(uint32(f.bits) << 16)))
	return x, false
'''),(B,'	"fmt"\n','	"math"\n'),(B,'	lead := 1\n','	lead := 1\n')])
ref('bf-table','C02',[(B,'''func (f Float) Exp() int {
	// 8 bit exponent: 0b0111111110000000
	return int(f.bits & 0x7F80 >> 7)
''','''func (f Float) Exp() int {
	e := 0
	for i := 14; i >= 7; i-- {
		e <<= 1
		if f.bits>>uint(i)&1 == 1 {
			e |= 1
		}
	}
	return e
''')])
ref('bf-cache','C02 C20',[(B,'''	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
''','''	mu.Lock()
	defer mu.Unlock()
	if y, ok := cache[f.bits]; ok {
		return x.Set(y), false
	}
	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	cache[f.bits] = new(big.Float).Copy(x)
	return x, false
'''),(B,'func NewFromBits','''var (
	mu    sync.Mutex
	cache = map[uint16]*big.Float{}
)

func NewFromBits''')],[(B,'sync')])
