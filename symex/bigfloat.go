package main

// Model of math/big.Float. The semantics follow math/big (float.go,
// floatconv.go) operation by operation; the mantissa is a bit-vector term
// normalised so that its most significant bit is one, and a finite value is
// 0.mant * 2**exp.

import (
	"math/big"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

const (
	bfZero   = 0
	bfFinite = 1
	bfInf    = 2
)

type aliasGroup struct{ n int }

type BF struct {
	prec *Term // 32 bits
	mode *Term // 8 bits
	acc  *Term // 8 bits, signed
	form int
	neg  *Term // bool
	mant *Term
	exp  *Term // 64 bits, signed, within the int32 range
	// alias is set when a struct copy made two Floats share mantissa storage
	alias *aliasGroup
}

const (
	minExp  = -1 << 31
	maxExp  = 1<<31 - 1
	maxPrec = 1<<32 - 1
)

func (e *Exec) newBF() *BF {
	c := e.c
	return &BF{prec: c.BV(32, 0), mode: c.BV(8, 0), acc: c.BV(8, 0), neg: c.F}
}

func (b *BF) clone() *BF { c := *b; c.alias = nil; return &c }

// structCopy is a Go struct copy: the mantissa slice is shared.
func (b *BF) structCopy() *BF {
	if b.form == bfFinite && b.alias == nil {
		b.alias = &aliasGroup{}
	}
	c := *b
	return &c
}

// inplace is called before an operation that writes into z's mantissa storage.
func (e *Exec) inplace(z *BF) {
	if z.alias != nil {
		// another Float shares this storage; the write would corrupt it
		e.aliasWrite(nil)
		z.alias = nil
	}
}

func (e *Exec) aliasWrite(hint *Term) {
	e.aliasBad = true
	if hint != nil && e.aliasHint == nil {
		e.aliasHint = hint
	}
}

func (e *Exec) bf(v Value) *BF {
	p, ok := v.(ptr)
	if !ok {
		e.unsupported("big.Float receiver")
	}
	if p == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	b, ok := (*p).(*BF)
	if !ok {
		e.unsupported("big.Float cell")
	}
	return b
}

func (e *Exec) newBFPtr(b *BF) ptr {
	p := new(Value)
	*p = b
	return p
}

func (e *Exec) acc8(above bool) *Term {
	if above {
		return e.c.BVi(8, 1)
	}
	return e.c.BVi(8, -1)
}

// accIf is makeAcc(cond).
func (e *Exec) accIf(above *Term) *Term {
	return e.c.Ite(above, e.c.BVi(8, 1), e.c.BVi(8, -1))
}

// trim drops constant zero low bits of a mantissa.
func (e *Exec) trim(m *Term) *Term {
	for m.w > 1 {
		last := m
		if m.op == OpConcat {
			last = m.args[len(m.args)-1]
		}
		if !last.isConst() {
			return m
		}
		v := last.big()
		n := 0
		if v.Sign() == 0 {
			n = last.w
		} else {
			n = int(v.TrailingZeroBits())
		}
		if n == 0 {
			return m
		}
		if n >= m.w {
			n = m.w - 1
		}
		m = e.c.Extract(m.w-1, n, m)
	}
	return m
}

// top returns the n most significant bits of mant (zero padded on the right).
func (e *Exec) top(m *Term, n int) *Term {
	if m.w >= n {
		return e.c.Extract(m.w-1, m.w-n, m)
	}
	return e.c.Concat(m, e.c.BV(n-m.w, 0))
}

// round implements Float.round with sticky bit sb (nil for none).
func (e *Exec) bfRound(z *BF, sb *Term) {
	c := e.c
	z.acc = c.BV(8, 0)
	if z.form != bfFinite {
		return
	}
	z.mant = e.trim(z.mant)
	if sb == nil || sb.isFalse() {
		if z.prec.umin >= uint64(z.mant.w) {
			return
		}
		if !z.prec.isConst() {
			// Does the mantissa fit the symbolic precision? Low W-prec bits zero.
			W := z.mant.w
			var fits *Term
			p := z.prec
			if p.umax < uint64(W) || true {
				amt := c.Ite(c.Ult(p, c.BV(32, uint64(W))), p, c.BV(32, uint64(W)))
				var sh *Term
				if W >= 32 {
					sh = c.Zext(amt, W)
				} else {
					sh = c.Extract(W-1, 0, amt)
					// amt <= W < 2^W for W >= 1
				}
				fits = c.Eq(c.Shl(z.mant, sh), c.BVBig(W, new(big.Int)))
			}
			if e.branch(fits) {
				return
			}
		}
	}
	P := int(e.conc(z.prec))
	if P == 0 {
		e.unsupported("rounding to zero precision")
	}
	W := z.mant.w
	if P >= W && (sb == nil || sb.isFalse()) {
		return
	}
	shared := z.alias != nil
	z.alias = nil
	m := z.mant
	if P+1 > W {
		m = e.top(m, P+1)
		W = P + 1
	}
	q := c.Extract(W-1, W-P, m)
	r := c.V2B(c.Extract(W-P-1, W-P-1, m))
	s := c.F
	if W-P-1 > 0 {
		s = c.Not(c.Eq(c.Extract(W-P-2, 0, m), c.BVBig(W-P-1, new(big.Int))))
	}
	if sb != nil {
		s = c.Or(s, sb)
	}
	inexact := c.Or(r, s)
	if shared {
		e.aliasWrite(inexact)
	}
	lsb := c.V2B(c.Extract(0, 0, q))
	inc := e.incCond(z.mode, z.neg, r, s, lsb)
	z.acc = c.Ite(inexact, e.accIf(c.Xor1(inc, z.neg)), c.BV(8, 0))
	inc = c.And(inexact, inc)
	ones := c.Eq(q, c.BvNot(c.BVBig(P, new(big.Int))))
	if !inc.isFalse() && e.branch(c.And(ones, inc)) {
		if e.branch(c.Sle(c.BVi(64, maxExp), z.exp)) {
			z.form = bfInf
			return
		}
		z.exp = c.Add(z.exp, c.BV(64, 1))
		z.mant = c.BV(1, 1)
		return
	}
	if inc.isFalse() {
		z.mant = e.trim(q)
		return
	}
	z.mant = e.trim(c.Add(q, c.Zext(c.B2V(inc), P)))
}

// incCond is the rounding decision for an inexact result.
func (e *Exec) incCond(mode, neg, r, s, lsb *Term) *Term {
	c := e.c
	byMode := []*Term{
		c.And(r, c.Or(s, lsb)), // ToNearestEven
		r,                      // ToNearestAway
		c.F,                    // ToZero
		c.T,                    // AwayFromZero
		neg,                    // ToNegativeInf
		c.Not(neg),             // ToPositiveInf
	}
	if mode.isConst() {
		if mode.u > 5 {
			e.unsupported("invalid rounding mode")
		}
		return byMode[mode.u]
	}
	if e.branch(c.Ult(c.BV(8, 5), mode)) {
		e.unsupported("invalid rounding mode")
	}
	t := byMode[5]
	for k := 4; k >= 0; k-- {
		t = c.Ite(c.Eq(mode, c.BV(8, uint64(k))), byMode[k], t)
	}
	return t
}

func (e *Exec) bfSetPrec(z *BF, prec *Term /*64*/) {
	c := e.c
	z.acc = c.BV(8, 0)
	if e.branch(c.Eq(prec, c.BV(64, 0))) {
		z.prec = c.BV(32, 0)
		if z.form == bfFinite {
			z.acc = e.accIf(z.neg)
			z.form = bfZero
		}
		return
	}
	if e.branch(c.Ult(c.BV(64, maxPrec), prec)) {
		prec = c.BV(64, maxPrec)
	}
	z.prec = c.Extract(31, 0, prec)
	// rounding to a precision that is not smaller than the old one changes nothing
	e.bfRound(z, nil)
}

func (e *Exec) bfCopy(z, x *BF) {
	if z == x {
		return
	}
	al := z.alias
	if x.form == bfFinite && al != nil {
		e.inplace(z)
	}
	*z = *x
	z.alias = nil
}

func (e *Exec) bfSet(z, x *BF) {
	c := e.c
	z.acc = c.BV(8, 0)
	if z == x {
		return
	}
	if x.form == bfFinite {
		e.inplace(z)
	}
	z.form, z.neg = x.form, x.neg
	z.alias = nil
	if x.form == bfFinite {
		z.mant, z.exp = x.mant, x.exp
	}
	if z.prec == x.prec {
		return // z.prec < x.prec cannot hold
	}
	if e.branch(c.Eq(z.prec, c.BV(32, 0))) {
		z.prec = x.prec
		return
	}
	e.bfRound(z, nil)
}

// setExpAndRound: exp is 64 bits.
func (e *Exec) bfSetExpRound(z *BF, exp *Term, sb *Term) {
	c := e.c
	if e.branch(c.Slt(exp, c.BVi(64, minExp))) {
		z.acc = e.accIf(z.neg)
		z.form = bfZero
		return
	}
	if e.branch(c.Slt(c.BVi(64, maxExp), exp)) {
		z.acc = e.accIf(c.Not(z.neg))
		z.form = bfInf
		return
	}
	z.form = bfFinite
	z.exp = exp
	e.bfRound(z, sb)
}

// norm shifts out leading zeros of v (v != 0) by forking on their number.
func (e *Exec) norm(v *Term) (m *Term, lz int) {
	lz = e.clz(v)
	if lz >= v.w {
		panic(pathStop{"internal", "norm of zero"})
	}
	return e.c.Extract(v.w-1-lz, 0, v), lz
}

// setBits sets z to the (possibly rounded) unsigned integer v of any width.
func (e *Exec) bfSetUint(z *BF, neg, v *Term) {
	c := e.c
	z.acc = c.BV(8, 0)
	z.neg = neg
	if e.branch(c.Eq(v, c.BVBig(v.w, new(big.Int)))) {
		z.form = bfZero
		return
	}
	m, lz := e.norm(v)
	e.inplace(z)
	z.form = bfFinite
	z.mant = m
	z.exp = c.BVi(64, int64(v.w-lz))
	e.bfRound(z, nil)
}

func (e *Exec) precOrDefault(z *BF, d *Term) {
	if e.branch(e.c.Eq(z.prec, e.c.BV(32, 0))) {
		z.prec = d
	}
}

func (e *Exec) bfSetFloat64(z *BF, x *Term) {
	c := e.c
	e.precOrDefault(z, c.BV(32, 53))
	if e.branch(e.fIsNaN(x)) {
		panic(targetPanic{v: ifaceV{}, msg: "big.ErrNaN: Float.SetFloat64(NaN)"})
	}
	z.acc = c.BV(8, 0)
	form, neg, mant, exp := e.fdecode(x)
	z.form, z.neg = form, neg
	if form == bfFinite {
		e.inplace(z)
		z.mant, z.exp = mant, exp
		e.bfRound(z, nil)
	}
}

// fdecode splits a non-NaN IEEE bit pattern into form, sign, normalised mantissa and exponent.
func (e *Exec) fdecode(x *Term) (form int, neg, mant, exp *Term) {
	c := e.c
	mb := 52
	if x.w == 32 {
		mb = 23
	}
	eb := x.w - 1 - mb
	bias := int64(1)<<(uint(eb)-1) - 1
	neg = c.V2B(c.Extract(x.w-1, x.w-1, x))
	ef := c.Extract(x.w-2, mb, x)
	fr := c.Extract(mb-1, 0, x)
	if e.branch(c.Eq(ef, c.BV(eb, 0))) {
		if e.branch(c.Eq(fr, c.BV(mb, 0))) {
			return bfZero, neg, nil, nil
		}
		m, lz := e.norm(fr)
		return bfFinite, neg, e.trim(m), c.BVi(64, 1-bias-int64(lz))
	}
	if e.branch(c.Eq(ef, c.BV(eb, ^uint64(0)))) {
		return bfInf, neg, nil, nil
	}
	return bfFinite, neg, e.trim(c.Concat(c.BV(1, 1), fr)), c.Add(c.Zext(ef, 64), c.BVi(64, 1-bias))
}

// bfToFloat rounds x to an IEEE format with fbits total and mbits fraction bits.
func (e *Exec) bfToFloat(x *BF, fbits, mbits int) (f, acc *Term) {
	c := e.c
	ebits := fbits - mbits - 1
	bias := int64(1)<<(uint(ebits)-1) - 1
	emin, emax := 1-bias, bias
	signv := c.B2V(x.neg)
	infBits := c.Concat(signv, c.BV(ebits, ^uint64(0)), c.BV(mbits, 0))
	switch x.form {
	case bfZero:
		return c.Concat(signv, c.BV(fbits-1, 0)), c.BV(8, 0)
	case bfInf:
		return infBits, c.BV(8, 0)
	}
	ee := c.Add(x.exp, c.BVi(64, -1))
	p := mbits + 1
	if e.branch(c.Eq(x.exp, c.BVi(64, minExp))) {
		// x.exp - 1 wraps around in int32 (math/big)
		r := e.newBF()
		r.prec = c.BV(32, uint64(p))
		r.form, r.neg, r.mant, r.exp = bfFinite, x.neg, x.mant, x.exp
		e.bfRound(r, nil)
		if e.branch(c.Eq(r.exp, c.BVi(64, minExp))) {
			return infBits, e.accIf(c.Not(x.neg))
		}
		return c.Concat(signv, c.BV(fbits-1, 0)), r.acc
	}
	if e.branch(c.Slt(ee, c.BVi(64, emin))) {
		pt := c.Add(ee, c.BVi(64, int64(mbits)+1-emin))
		if e.branch(c.Slt(pt, c.BV(64, 0))) {
			return c.Concat(signv, c.BV(fbits-1, 0)), e.accIf(x.neg)
		}
		p = int(sx(e.conc(pt), 64))
		if p == 0 {
			mt := e.trim(x.mant)
			pow2 := c.T
			if mt.w > 1 {
				pow2 = c.Eq(c.Extract(mt.w-2, 0, mt), c.BVBig(mt.w-1, new(big.Int)))
			}
			if e.branch(pow2) {
				return c.Concat(signv, c.BV(fbits-1, 0)), e.accIf(x.neg)
			}
			return c.Concat(signv, c.BV(fbits-1, 1)), e.accIf(c.Not(x.neg))
		}
	}
	r := e.newBF()
	r.prec = c.BV(32, uint64(p))
	r.form, r.neg, r.mant, r.exp = bfFinite, x.neg, x.mant, x.exp
	e.bfRound(r, nil)
	if r.form == bfInf {
		return infBits, e.accIf(c.Not(x.neg))
	}
	ee = c.Add(r.exp, c.BVi(64, -1))
	if e.branch(c.Slt(c.BVi(64, emax), ee)) {
		return infBits, e.accIf(c.Not(x.neg))
	}
	if e.branch(c.Slt(ee, c.BVi(64, emin))) {
		p = int(sx(e.conc(c.Add(ee, c.BVi(64, int64(mbits)+1-emin))), 64))
		// mantissa shifted right into the fraction field
		fr := c.Zext(e.top(r.mant, p), mbits)
		return c.Concat(signv, c.BV(ebits, 0), fr), r.acc
	}
	fr := c.Extract(mbits-1, 0, e.top(r.mant, mbits+1))
	bexp := c.Extract(ebits-1, 0, c.Add(ee, c.BVi(64, bias)))
	return c.Concat(signv, bexp, fr), r.acc
}

// minPrec is a 64-bit term: the number of mantissa bits up to the last one bit.
func (e *Exec) minPrec(x *BF) *Term {
	c := e.c
	if x.form != bfFinite {
		return c.BV(64, 0)
	}
	m := e.trim(x.mant)
	r := c.BV(64, 1)
	for k := 1; k < m.w; k++ {
		r = c.Ite(c.V2B(c.Extract(m.w-1-k, m.w-1-k, m)), c.BV(64, uint64(k+1)), r)
	}
	return r
}

// fitsBits: MinPrec(x) <= n for a constant n.
func (e *Exec) fitsBits(x *BF, n int) *Term {
	c := e.c
	m := e.trim(x.mant)
	if n >= m.w {
		return c.T
	}
	if n <= 0 {
		return c.F
	}
	return c.Eq(c.Extract(m.w-n-1, 0, m), c.BVBig(m.w-n, new(big.Int)))
}

// ucmp as a pair of conditions (|x|<|y|, |x|==|y|).
func (e *Exec) ucmp(x, y *BF) (lt, eq *Term) {
	c := e.c
	w := max(x.mant.w, y.mant.w)
	mx, my := e.top(x.mant, w), e.top(y.mant, w)
	elt, eeq := c.Slt(x.exp, y.exp), c.Eq(x.exp, y.exp)
	lt = c.Or(elt, c.And(eeq, c.Ult(mx, my)))
	eq = c.And(eeq, c.Eq(mx, my))
	return
}

// bfCmp returns a 64-bit term -1, 0, +1.
func (e *Exec) bfCmp(x, y *BF) *Term {
	c := e.c
	neg1, zero, one := c.BVi(64, -1), c.BV(64, 0), c.BV(64, 1)
	ord := func(b *BF) *Term {
		switch b.form {
		case bfZero:
			return zero
		case bfFinite:
			return c.Ite(b.neg, neg1, one)
		}
		return c.Ite(b.neg, c.BVi(64, -2), c.BV(64, 2))
	}
	ox, oy := ord(x), ord(y)
	if x.form == bfFinite && y.form == bfFinite {
		lt, eq := e.ucmp(x, y)
		gt := c.And(c.Not(lt), c.Not(eq))
		same := c.Ite(x.neg, c.Ite(gt, neg1, c.Ite(eq, zero, one)), c.Ite(lt, neg1, c.Ite(eq, zero, one)))
		return c.Ite(c.Eq(x.neg, y.neg), same, c.Ite(x.neg, neg1, one))
	}
	return c.Ite(c.Slt(ox, oy), neg1, c.Ite(c.Eq(ox, oy), zero, one))
}

func (e *Exec) maxPrecOf(x, y *BF) *Term {
	return e.c.Ite(e.c.Ult(x.prec, y.prec), y.prec, x.prec)
}

// bfAddSub computes z = x + y (sub flips y's sign first).
func (e *Exec) bfAddSub(z, x, y *BF, sub bool) {
	c := e.c
	e.precOrDefault(z, e.maxPrecOf(x, y))
	yneg := y.neg
	if sub {
		yneg = c.Not(y.neg)
	}
	// value copies: z may alias an operand
	xv, yv := x.clone(), y.clone()
	yv.neg = yneg
	switch {
	case xv.form == bfFinite && yv.form == bfFinite:
		e.inplace(z)
		if e.branch(c.Eq(xv.neg, yneg)) {
			z.neg = xv.neg
			e.bfUaddsub(z, xv, yv, false)
		} else {
			lt, eq := e.ucmp(xv, yv)
			if e.branch(eq) {
				z.neg = c.F
				z.acc = c.BV(8, 0)
				z.form = bfZero
			} else if e.branch(lt) {
				z.neg = c.Not(xv.neg)
				e.bfUaddsub(z, yv, xv, true)
			} else {
				z.neg = xv.neg
				e.bfUaddsub(z, xv, yv, true)
			}
		}
		if z.form == bfZero {
			z.neg = c.Or(z.neg, c.And(c.Eq(z.mode, c.BV(8, 4)), c.Eq(z.acc, c.BV(8, 0))))
		}
	case xv.form == bfInf && yv.form == bfInf:
		if e.branch(c.Not(c.Eq(xv.neg, yneg))) {
			z.acc = c.BV(8, 0)
			z.form = bfZero
			z.neg = c.F
			panic(targetPanic{v: ifaceV{}, msg: "big.ErrNaN: addition of infinities with opposite signs"})
		}
		e.bfSet(z, x)
	case xv.form == bfZero && yv.form == bfZero:
		z.acc = c.BV(8, 0)
		z.form = bfZero
		z.neg = c.And(xv.neg, yneg)
	case xv.form == bfInf || yv.form == bfZero:
		e.bfSet(z, x)
	default:
		if sub {
			e.bfSet(z, y)
			z.neg = c.Not(z.neg)
		} else {
			e.bfSet(z, y)
		}
	}
}

// bfUaddsub adds or subtracts magnitudes (for sub, |x| > |y|).
func (e *Exec) bfUaddsub(z, x, y *BF, sub bool) {
	c := e.c
	mx, my := e.trim(x.mant), e.trim(y.mant)
	d := sx(e.conc(c.Sub(x.exp, y.exp)), 64)
	// integers with a common lsb exponent: x = mx * 2^(ex-Wx)
	lx, ly := int64(0), -d // relative to ex: exponent of the point
	// lsb exponents relative to ex
	lx -= int64(mx.w)
	ly -= int64(my.w)
	l := min(lx, ly)
	sxh, syh := lx-l, ly-l
	if sxh > int64(e.eng.maxWidth) || syh > int64(e.eng.maxWidth) {
		e.unsupported("addition with a huge exponent difference")
	}
	w := max(mx.w+int(sxh), my.w+int(syh)) + 1
	ext := func(m *Term, sh int) *Term {
		if sh > 0 {
			m = c.Concat(m, c.BVBig(sh, new(big.Int)))
		}
		return c.Zext(m, w)
	}
	a, b := ext(mx, int(sxh)), ext(my, int(syh))
	var v *Term
	if sub {
		v = e.wideSub(a, b)
	} else {
		v = e.wideAdd(a, b)
	}
	m, lz := e.norm(v)
	z.mant = e.trim(m)
	// value = v * 2^(ex+l); v has w-lz significant bits
	exp := c.Add(x.exp, c.BVi(64, l+int64(w-lz)))
	e.bfSetExpRound(z, exp, nil)
}

// wideAdd adds with the non-overlapping low part kept separate.
func (e *Exec) wideAdd(a, b *Term) *Term {
	c := e.c
	if n := min(trailZeros(a), a.w-1); n > 0 {
		return c.Concat(c.Add(c.Extract(a.w-1, n, a), c.Extract(a.w-1, n, b)), c.Extract(n-1, 0, b))
	}
	if n := min(trailZeros(b), b.w-1); n > 0 {
		return c.Concat(c.Add(c.Extract(a.w-1, n, a), c.Extract(a.w-1, n, b)), c.Extract(n-1, 0, a))
	}
	return c.Add(a, b)
}

func (e *Exec) wideSub(a, b *Term) *Term {
	c := e.c
	if n := min(trailZeros(a), a.w-1); n > 0 && a.w > 64 {
		// low n bits of a are zero: low = -b_low, borrow iff b_low != 0
		bl := c.Extract(n-1, 0, b)
		nz := c.Not(c.Eq(bl, c.BVBig(n, new(big.Int))))
		low := c.Neg(bl)
		hi := c.Sub(c.Sub(c.Extract(a.w-1, n, a), c.Extract(a.w-1, n, b)), c.Zext(c.B2V(nz), a.w-n))
		return c.Concat(hi, low)
	}
	if n := min(trailZeros(b), b.w-1); n > 0 {
		return c.Concat(c.Sub(c.Extract(a.w-1, n, a), c.Extract(a.w-1, n, b)), c.Extract(n-1, 0, a))
	}
	return c.Sub(a, b)
}

func trailZeros(t *Term) int {
	if t.isConst() {
		v := t.big()
		if v.Sign() == 0 {
			return t.w
		}
		return int(v.TrailingZeroBits())
	}
	if t.op == OpConcat {
		l := t.args[len(t.args)-1]
		if l.isConst() {
			n := trailZeros(l)
			return n
		}
	}
	return 0
}

func (e *Exec) bfMul(z, x, y *BF) {
	c := e.c
	e.precOrDefault(z, e.maxPrecOf(x, y))
	xv, yv := x.clone(), y.clone()
	neg := c.Xor1(xv.neg, yv.neg)
	z.neg = neg
	if xv.form == bfFinite && yv.form == bfFinite {
		e.inplace(z)
		mx, my := e.trim(xv.mant), e.trim(yv.mant)
		exp := c.Add(xv.exp, yv.exp)
		w := mx.w + my.w
		var v *Term
		switch {
		case my.w == 1:
			v = mx
			exp = c.Add(exp, c.BVi(64, -1))
		case mx.w == 1:
			v = my
			exp = c.Add(exp, c.BVi(64, -1))
		default:
			v = c.Mul(c.Zext(mx, w), c.Zext(my, w))
			m, lz := e.norm(v)
			v = m
			exp = c.Add(exp, c.BVi(64, -int64(lz)))
		}
		z.mant = e.trim(v)
		e.bfSetExpRound(z, exp, nil)
		return
	}
	z.acc = c.BV(8, 0)
	if xv.form == bfZero && yv.form == bfInf || xv.form == bfInf && yv.form == bfZero {
		z.form = bfZero
		z.neg = c.F
		panic(targetPanic{v: ifaceV{}, msg: "big.ErrNaN: multiplication of zero with infinity"})
	}
	if xv.form == bfInf || yv.form == bfInf {
		z.form = bfInf
		return
	}
	z.form = bfZero
}

func (e *Exec) bfQuo(z, x, y *BF) {
	c := e.c
	e.precOrDefault(z, e.maxPrecOf(x, y))
	xv, yv := x.clone(), y.clone()
	z.neg = c.Xor1(xv.neg, yv.neg)
	if xv.form == bfFinite && yv.form == bfFinite {
		e.inplace(z)
		mx, my := e.trim(xv.mant), e.trim(yv.mant)
		exp := c.Sub(xv.exp, yv.exp)
		if my.w == 1 {
			z.mant = mx
			e.bfSetExpRound(z, c.Add(exp, c.BVi(64, 1)), nil)
			return
		}
		// quotient with enough bits for rounding plus a sticky bit
		P := int(e.conc(z.prec))
		w := max(mx.w, my.w) + P + 3
		num := c.Concat(c.BVBig(w+1-mx.w-(w-mx.w), new(big.Int)), mx, c.BVBig(w-mx.w, new(big.Int)))
		_ = num
		nw := my.w + P + 3
		n := c.Concat(e.top(mx, max(mx.w, my.w)), c.BVBig(P+3, new(big.Int)))
		dn := e.top(my, max(mx.w, my.w))
		nw = n.w
		dn = c.Zext(dn, nw)
		q := c.Udiv(n, dn)
		r := c.Urem(n, dn)
		// x/y = q * 2^-(P+3) * 2^exp ; q in (2^(P+2), 2^(P+4))
		m, lz := e.norm(q)
		z.mant = m
		e2 := c.Add(exp, c.BVi(64, int64(nw-lz-(P+3))))
		e.bfSetExpRound(z, e2, c.Not(c.Eq(r, c.BVBig(nw, new(big.Int)))))
		return
	}
	z.acc = c.BV(8, 0)
	if xv.form == bfZero && yv.form == bfZero || xv.form == bfInf && yv.form == bfInf {
		z.form = bfZero
		z.neg = c.F
		panic(targetPanic{v: ifaceV{}, msg: "big.ErrNaN: division of zero by zero or infinity by infinity"})
	}
	if xv.form == bfZero || yv.form == bfInf {
		z.form = bfZero
		return
	}
	z.form = bfInf
}

// integer part: returns width-limited unsigned integer of |trunc(x)| for concrete exponent
func (e *Exec) bfTruncMag(x *BF, exp int) *Term {
	m := e.trim(x.mant)
	if exp <= 0 {
		return e.c.BV(1, 0)
	}
	return e.top(m, exp)
}

func (e *Exec) registerFloat(in map[string]intrinsic) {
	c64 := func(e *Exec, v Value) *Term { return v.(*Term) }
	reg := func(name string, f func(e *Exec, fn *ssa.Function, a []Value) Value) { in[name] = f }
	m := func(name string, f func(e *Exec, z *BF, a []Value) Value) {
		in["(*math/big.Float)."+name] = func(e *Exec, fn *ssa.Function, a []Value) Value {
			return f(e, e.bf(a[0]), a)
		}
	}
	reg("math/big.NewFloat", func(e *Exec, fn *ssa.Function, a []Value) Value {
		x := c64(e, a[0])
		z := e.newBF()
		if e.branch(e.fIsNaN(x)) {
			panic(targetPanic{v: ifaceV{}, msg: "big.ErrNaN: NewFloat(NaN)"})
		}
		e.bfSetFloat64(z, x)
		return e.newBFPtr(z)
	})
	m("SetPrec", func(e *Exec, z *BF, a []Value) Value { e.bfSetPrec(z, c64(e, a[1])); return a[0] })
	m("SetMode", func(e *Exec, z *BF, a []Value) Value {
		z.mode = c64(e, a[1])
		z.acc = e.c.BV(8, 0)
		return a[0]
	})
	m("Prec", func(e *Exec, z *BF, a []Value) Value { return e.c.Zext(z.prec, 64) })
	m("MinPrec", func(e *Exec, z *BF, a []Value) Value { return e.minPrec(z) })
	m("Mode", func(e *Exec, z *BF, a []Value) Value { return z.mode })
	m("Acc", func(e *Exec, z *BF, a []Value) Value { return z.acc })
	m("Sign", func(e *Exec, z *BF, a []Value) Value {
		if z.form == bfZero {
			return e.c.BV(64, 0)
		}
		return e.c.Ite(z.neg, e.c.BVi(64, -1), e.c.BV(64, 1))
	})
	m("Signbit", func(e *Exec, z *BF, a []Value) Value { return z.neg })
	m("IsInf", func(e *Exec, z *BF, a []Value) Value { return e.c.Bool(z.form == bfInf) })
	m("IsInt", func(e *Exec, z *BF, a []Value) Value {
		if z.form != bfFinite {
			return e.c.Bool(z.form == bfZero)
		}
		c := e.c
		if !e.branch(c.Slt(c.BV(64, 0), z.exp)) {
			return c.F
		}
		mt := e.trim(z.mant)
		if !e.branch(c.Slt(z.exp, c.BVi(64, int64(mt.w)))) {
			return c.T
		}
		return e.fitsBits(z, int(sx(e.conc(z.exp), 64)))
	})
	m("MantExp", func(e *Exec, x *BF, a []Value) Value {
		r := e.c.BV(64, 0)
		if x.form == bfFinite {
			r = x.exp
		}
		if p := a[1].(ptr); p != nil {
			z := e.bf(p)
			e.bfCopy(z, x)
			if z.form == bfFinite {
				z.exp = e.c.BV(64, 0)
			}
		}
		return r
	})
	m("SetMantExp", func(e *Exec, z *BF, a []Value) Value {
		x := e.bf(a[1])
		e.bfCopy(z, x)
		if z.form == bfFinite {
			// guard against 64-bit wraparound of exp + z.exp: math/big has the
			// same int64 arithmetic, so plain addition is faithful
			e.bfSetExpRound(z, e.c.Add(z.exp, c64(e, a[2])), nil)
		}
		return a[0]
	})
	m("SetInf", func(e *Exec, z *BF, a []Value) Value {
		z.acc = e.c.BV(8, 0)
		z.form = bfInf
		z.neg = c64(e, a[1])
		return a[0]
	})
	m("SetUint64", func(e *Exec, z *BF, a []Value) Value {
		e.precOrDefault(z, e.c.BV(32, 64))
		e.bfSetUint(z, e.c.F, c64(e, a[1]))
		return a[0]
	})
	m("SetInt64", func(e *Exec, z *BF, a []Value) Value {
		e.precOrDefault(z, e.c.BV(32, 64))
		x := c64(e, a[1])
		neg := e.c.Slt(x, e.c.BV(64, 0))
		e.bfSetUint(z, neg, e.c.Ite(neg, e.c.Neg(x), x))
		return a[0]
	})
	m("SetFloat64", func(e *Exec, z *BF, a []Value) Value { e.bfSetFloat64(z, c64(e, a[1])); return a[0] })
	m("SetInt", func(e *Exec, z *BF, a []Value) Value {
		c := e.c
		x := e.bi(a[1])
		if e.branch(c.Eq(z.prec, c.BV(32, 0))) {
			n := 64
			if x.mag != nil {
				n = max(64, int(e.conc(e.biBitLen(x))))
			}
			z.prec = c.BV(32, uint64(n))
		}
		if x.mag == nil {
			z.acc, z.neg, z.form = c.BV(8, 0), c.F, bfZero
			return a[0]
		}
		e.bfSetUint(z, e.biNeg(x), x.mag)
		return a[0]
	})
	m("Set", func(e *Exec, z *BF, a []Value) Value { e.bfSet(z, e.bf(a[1])); return a[0] })
	m("Copy", func(e *Exec, z *BF, a []Value) Value { e.bfCopy(z, e.bf(a[1])); return a[0] })
	m("Abs", func(e *Exec, z *BF, a []Value) Value { e.bfSet(z, e.bf(a[1])); z.neg = e.c.F; return a[0] })
	m("Neg", func(e *Exec, z *BF, a []Value) Value {
		e.bfSet(z, e.bf(a[1]))
		z.neg = e.c.Not(z.neg)
		return a[0]
	})
	m("Add", func(e *Exec, z *BF, a []Value) Value { e.bfAddSub(z, e.bf(a[1]), e.bf(a[2]), false); return a[0] })
	m("Sub", func(e *Exec, z *BF, a []Value) Value { e.bfAddSub(z, e.bf(a[1]), e.bf(a[2]), true); return a[0] })
	m("Mul", func(e *Exec, z *BF, a []Value) Value { e.bfMul(z, e.bf(a[1]), e.bf(a[2])); return a[0] })
	m("Quo", func(e *Exec, z *BF, a []Value) Value { e.bfQuo(z, e.bf(a[1]), e.bf(a[2])); return a[0] })
	m("Cmp", func(e *Exec, z *BF, a []Value) Value { return e.bfCmp(z, e.bf(a[1])) })
	m("Float64", func(e *Exec, z *BF, a []Value) Value {
		f, acc := e.bfToFloat(z, 64, 52)
		return tupleV{f, acc}
	})
	m("Float32", func(e *Exec, z *BF, a []Value) Value {
		f, acc := e.bfToFloat(z, 32, 23)
		return tupleV{f, acc}
	})
	m("Uint64", func(e *Exec, x *BF, a []Value) Value {
		c := e.c
		mx, ex, below, above := c.BV(64, ^uint64(0)), c.BV(8, 0), c.BVi(8, -1), c.BVi(8, 1)
		switch x.form {
		case bfZero:
			return tupleV{c.BV(64, 0), ex}
		case bfInf:
			if e.branch(x.neg) {
				return tupleV{c.BV(64, 0), above}
			}
			return tupleV{mx, below}
		}
		if e.branch(x.neg) {
			return tupleV{c.BV(64, 0), above}
		}
		if e.branch(c.Sle(x.exp, c.BV(64, 0))) {
			return tupleV{c.BV(64, 0), below}
		}
		if e.branch(c.Slt(c.BV(64, 64), x.exp)) {
			return tupleV{mx, below}
		}
		n := int(e.conc(x.exp))
		u := c.Zext(e.top(e.trim(x.mant), n), 64)
		return tupleV{u, c.Ite(e.fitsBits(x, 64), ex, below)}
	})
	m("Int64", func(e *Exec, x *BF, a []Value) Value {
		c := e.c
		ex, below, above := c.BV(8, 0), c.BVi(8, -1), c.BVi(8, 1)
		mn, mx := c.BV(64, 1<<63), c.BV(64, 1<<63-1)
		switch x.form {
		case bfZero:
			return tupleV{c.BV(64, 0), ex}
		case bfInf:
			if e.branch(x.neg) {
				return tupleV{mn, above}
			}
			return tupleV{mx, below}
		}
		acc := e.accIf(x.neg)
		if e.branch(c.Sle(x.exp, c.BV(64, 0))) {
			return tupleV{c.BV(64, 0), acc}
		}
		if e.branch(c.Sle(x.exp, c.BV(64, 63))) {
			n := int(e.conc(x.exp))
			u := c.Zext(e.top(e.trim(x.mant), n), 64)
			return tupleV{c.Ite(x.neg, c.Neg(u), u), c.Ite(e.fitsBits(x, n), ex, acc)}
		}
		if e.branch(x.neg) {
			return tupleV{mn, c.Ite(c.And(c.Eq(x.exp, c.BV(64, 64)), e.fitsBits(x, 1)), ex, above)}
		}
		return tupleV{mx, below}
	})
	m("Int", func(e *Exec, x *BF, a []Value) Value {
		c := e.c
		zp := a[1].(ptr)
		if x.form == bfInf {
			return tupleV{ptr(nil), e.accIf(x.neg)}
		}
		if zp == nil {
			zp = new(Value)
			*zp = &BI{neg: c.F}
		}
		z := e.bi(zp)
		if x.form == bfZero {
			*z = BI{neg: c.F}
			return tupleV{zp, c.BV(8, 0)}
		}
		acc := e.accIf(x.neg)
		if e.branch(c.Sle(x.exp, c.BV(64, 0))) {
			*z = BI{neg: c.F}
			return tupleV{zp, acc}
		}
		if e.branch(c.Slt(c.BVi(64, int64(e.eng.maxWidth)), x.exp)) {
			e.unsupported("Float.Int of a huge value")
		}
		n := int(e.conc(x.exp))
		fits := e.fitsBits(x, n)
		*z = BI{neg: x.neg, mag: e.top(e.trim(x.mant), n)}
		return tupleV{zp, c.Ite(fits, c.BV(8, 0), acc)}
	})
	m("Parse", func(e *Exec, z *BF, a []Value) Value {
		base := int(e.conc(a[2].(*Term)))
		b, err := e.bfParse(z, a[1].(*Str), base)
		if err != "" {
			return tupleV{ptr(nil), e.c.BV(64, uint64(b)), e.errV(err)}
		}
		return tupleV{a[0], e.c.BV(64, uint64(b)), ifaceV{}}
	})
	m("SetString", func(e *Exec, z *BF, a []Value) Value {
		_, err := e.bfParse(z, a[1].(*Str), 0)
		if err != "" {
			return tupleV{ptr(nil), e.c.F}
		}
		return tupleV{a[0], e.c.T}
	})
	reg("math/big.ParseFloat", func(e *Exec, fn *ssa.Function, a []Value) Value {
		z := e.newBF()
		e.bfSetPrec(z, a[2].(*Term))
		z.mode = a[3].(*Term)
		b, err := e.bfParse(z, a[0].(*Str), int(e.conc(a[1].(*Term))))
		if err != "" {
			return tupleV{ptr(nil), e.c.BV(64, uint64(b)), e.errV(err)}
		}
		return tupleV{e.newBFPtr(z), e.c.BV(64, uint64(b)), ifaceV{}}
	})
}

func (e *Exec) errV(msg string) ifaceV {
	return e.eng.mkError(e, msg)
}

// bfParse models Float.Parse. Fully concrete strings go through math/big
// itself; otherwise the mantissa digits may be symbolic in bases 2, 8 and 16
// and the exponent a decimal segment.
func (e *Exec) bfParse(z *BF, s *Str, base int) (int, string) {
	c := e.c
	if !s.sym && z.prec.isConst() && z.mode.isConst() {
		f := new(big.Float).SetPrec(uint(z.prec.u)).SetMode(big.RoundingMode(z.mode.u))
		g, b, err := f.Parse(s.lit, base)
		if err != nil {
			z.form = bfZero
			return b, err.Error()
		}
		e.inplace(z)
		e.fromNative(z, g)
		return b, ""
	}
	bs := e.strBytes(s)
	pos := 0
	isConstCh := func(i int, set string) (byte, bool) {
		if i >= len(bs) || bs[i].dec != nil || !bs[i].t.isConst() {
			return 0, false
		}
		ch := byte(bs[i].t.u)
		for k := 0; k < len(set); k++ {
			if set[k] == ch {
				return ch, true
			}
		}
		return 0, false
	}
	prec := z.prec
	if e.branch(c.Eq(z.prec, c.BV(32, 0))) {
		prec = c.BV(32, 64)
	}
	z.form = bfZero
	neg := c.F
	if pos < len(bs) && bs[pos].dec == nil && !bs[pos].t.isConst() {
		// symbolic sign character
		if e.branch(c.Eq(bs[pos].t, c.BV(8, '-'))) {
			neg = c.T
			pos++
		} else if e.branch(c.Eq(bs[pos].t, c.BV(8, '+'))) {
			pos++
		}
	} else if ch, ok := isConstCh(pos, "+-"); ok {
		neg = c.Bool(ch == '-')
		pos++
	}
	b := base
	prefix := false
	if base == 0 {
		b = 10
		if _, ok := isConstCh(pos, "0"); ok {
			if ch, ok := isConstCh(pos+1, "bBoOxX"); ok {
				switch ch {
				case 'b', 'B':
					b = 2
				case 'o', 'O':
					b = 8
				default:
					b = 16
				}
				prefix = true
				pos += 2
			}
		}
	}
	_ = prefix
	bitsPer := map[int]int{2: 1, 8: 3, 16: 4}[b]
	var parts []*Term
	ndig, frac, dot := 0, 0, false
	if bitsPer == 0 {
		// decimal digits: accept only a mantissa whose digits are concrete
		// followed by a p exponent, i.e. an integer times a power of two
		v := new(big.Int)
		for ; pos < len(bs); pos++ {
			ch, ok := isConstCh(pos, "0123456789")
			if !ok {
				break
			}
			v.Mul(v, big.NewInt(10)).Add(v, big.NewInt(int64(ch-'0')))
			ndig++
		}
		if _, ok := isConstCh(pos, "pP"); !ok && pos < len(bs) || ndig == 0 {
			// a decimal segment mantissa followed by p
			if pos < len(bs) && bs[pos].dec != nil && ndig == 0 {
				d := bs[pos].dec
				if e.branch(c.Slt(d, c.BV(64, 0))) {
					if !neg.isFalse() {
						e.unsupported("symbolic number syntax")
					}
					neg = c.T
					d = c.Neg(d)
				}
				parts = []*Term{d}
				ndig = 1
				pos++
			} else {
				e.unsupported("symbolic decimal mantissa")
			}
			if _, ok := isConstCh(pos, "pP"); !ok && pos < len(bs) {
				e.unsupported("symbolic decimal mantissa")
			}
		} else {
			if v.Sign() == 0 {
				parts = []*Term{c.BV(1, 0)}
			} else {
				parts = []*Term{c.BVBig(v.BitLen(), v)}
			}
		}
	} else {
		for ; pos < len(bs); pos++ {
			if bs[pos].dec != nil {
				// %d of a symbolic digit such as the lead bit: must be a single digit
				d := bs[pos].dec
				if !(e.branch(c.Ult(d, c.BV(64, uint64(b)))) && b <= 8) {
					e.unsupported("decimal segment inside a mantissa")
				}
				parts = append(parts, c.Extract(bitsPer-1, 0, d))
				ndig++
				if dot {
					frac++
				}
				continue
			}
			t := bs[pos].t
			if t.isConst() {
				ch := byte(t.u)
				if ch == '.' {
					if dot {
						return b, "syntax"
					}
					dot = true
					continue
				}
				if ch == '_' && base == 0 {
					e.unsupported("underscore in symbolic number")
				}
				d := digitVal(ch)
				if d >= b {
					break
				}
				parts = append(parts, c.BV(bitsPer, uint64(d)))
				ndig++
				if dot {
					frac++
				}
				continue
			}
			d, valid := e.digit(t, b)
			if !e.branchWhole(valid) {
				e.unsupported("symbolic character that is not a digit")
			}
			parts = append(parts, c.Extract(bitsPer-1, 0, d))
			ndig++
			if dot {
				frac++
			}
		}
	}
	if ndig == 0 {
		return b, "number has no digits"
	}
	// exponent
	exp := c.BV(64, 0)
	if pos < len(bs) {
		ch, ok := isConstCh(pos, "pPeE")
		if !ok {
			return b, "expected end of string"
		}
		if ch == 'e' || ch == 'E' {
			if bitsPer != 0 {
				e.unsupported("decimal exponent")
			}
			e.unsupported("decimal exponent")
		}
		pos++
		eneg := false
		if ch, ok := isConstCh(pos, "+-"); ok {
			eneg = ch == '-'
			pos++
		}
		if pos < len(bs) && bs[pos].dec != nil && pos == len(bs)-1 {
			d := bs[pos].dec
			if eneg || pos > 0 && isSign(bs, pos-1) {
				// "+-5" is a syntax error
				if e.branch(c.Slt(d, c.BV(64, 0))) {
					return b, "number has no digits"
				}
			}
			exp = d
			if eneg {
				exp = c.Neg(d)
			}
			pos++
		} else {
			nd := 0
			v := int64(0)
			for ; pos < len(bs); pos++ {
				if bs[pos].dec != nil {
					e.unsupported("mixed exponent digits")
				}
				t := bs[pos].t
				ch := byte(0)
				if t.isConst() {
					ch = byte(t.u)
				} else {
					ch = byte(e.conc(t))
				}
				if ch < '0' || ch > '9' {
					break
				}
				v = v*10 + int64(ch-'0')
				nd++
			}
			if nd == 0 {
				return b, "number has no digits"
			}
			if nd > 17 {
				e.unsupported("huge exponent")
			}
			if eneg {
				v = -v
			}
			exp = c.BVi(64, v)
		}
	}
	if pos < len(bs) {
		return b, "expected end of string"
	}
	v := c.Concat(parts...)
	z.neg = neg
	if e.branch(c.Eq(v, c.BVBig(v.w, new(big.Int)))) {
		z.prec = prec
		z.acc = c.BV(8, 0)
		z.form = bfZero
		return b, ""
	}
	m, lz := e.norm(v)
	exp2 := c.Add(exp, c.BVi(64, int64(v.w-lz)-int64(frac*bitsPer)))
	inRange := c.And(c.Sle(c.BVi(64, minExp), exp2), c.Sle(exp2, c.BVi(64, maxExp)))
	if !e.branch(inRange) {
		return b, "exponent overflow"
	}
	e.inplace(z)
	z.prec = prec
	z.form = bfFinite
	z.mant = m
	z.exp = exp2
	e.bfRound(z, nil)
	return b, ""
}

func isSign(bs []SByte, i int) bool {
	return bs[i].dec == nil && bs[i].t.isConst() && (bs[i].t.u == '+' || bs[i].t.u == '-')
}

func digitVal(ch byte) int {
	switch {
	case '0' <= ch && ch <= '9':
		return int(ch - '0')
	case 'a' <= ch && ch <= 'z':
		return int(ch-'a') + 10
	case 'A' <= ch && ch <= 'Z':
		return int(ch-'A') + 10
	}
	return 99
}

// digit converts a symbolic character to a digit value (8 bits) and its validity.
func (e *Exec) digit(t *Term, base int) (d, valid *Term) {
	c := e.c
	if h, ok := e.digOf[t]; ok && h.base <= base {
		return h.d, c.T
	}
	if base <= 10 {
		d = c.Sub(t, c.BV(8, '0'))
		return d, c.Ult(d, c.BV(8, uint64(base)))
	}
	lo := c.Sub(t, c.BV(8, '0'))
	isD := c.Ult(lo, c.BV(8, 10))
	up := c.Sub(c.BvOr(t, c.BV(8, 0x20)), c.BV(8, 'a'))
	isH := c.Ult(up, c.BV(8, uint64(base-10)))
	return c.Ite(isD, lo, c.Add(up, c.BV(8, 10))), c.Or(isD, isH)
}

// fromNative loads a concrete big.Float into z.
func (e *Exec) fromNative(z *BF, g *big.Float) {
	c := e.c
	z.prec = c.BV(32, uint64(g.Prec()))
	z.mode = c.BV(8, uint64(g.Mode()))
	z.acc = c.BVi(8, int64(g.Acc()))
	z.neg = c.Bool(g.Signbit())
	switch {
	case g.IsInf():
		z.form = bfInf
	case g.Sign() == 0:
		z.form = bfZero
	default:
		z.form = bfFinite
		m := new(big.Float)
		ex := g.MantExp(m)
		n := int(g.MinPrec())
		m.SetMantExp(m, n)
		i, _ := m.Int(nil)
		i.Abs(i)
		z.mant = c.BVBig(n, i)
		z.exp = c.BVi(64, int64(ex))
	}
}

// toNative gives the concrete big.Float of z, if it is concrete.
func (e *Exec) toNative(z *BF) (*big.Float, bool) {
	if !z.prec.isConst() || !z.mode.isConst() || !z.acc.isConst() || !z.neg.isConst() {
		return nil, false
	}
	g := new(big.Float).SetMode(big.RoundingMode(z.mode.u))
	defer func() {
		if g != nil {
			// acc follows prec and mode in the struct
			(*[8]byte)(unsafe.Pointer(g))[5] = byte(z.acc.u)
		}
	}()
	switch z.form {
	case bfZero:
		g.SetPrec(uint(z.prec.u))
		if z.neg.isTrue() {
			g.Neg(g)
		}
	case bfInf:
		g.SetPrec(uint(z.prec.u))
		g.SetInf(z.neg.isTrue())
	default:
		if !z.mant.isConst() || !z.exp.isConst() {
			return nil, false
		}
		g.SetPrec(uint(z.prec.u))
		g.SetInt(z.mant.big())
		g.SetMantExp(g, int(z.exp.s64())-z.mant.w)
		if z.neg.isTrue() {
			g.Neg(g)
		}
	}
	return g, true
}
