package main

import "math/big"

// fconv converts between float32 and float64 bit patterns. A NaN keeps its
// sign, is quieted and keeps the top payload bits (amd64 behaviour).
func (e *Exec) fconv(t *Term, wt int) *Term {
	c := e.c
	if t.isConst() && !e.fIsNaN(t).isTrue() {
		return c.BV(wt, convFloatBits(t.u, t.w, wt))
	}
	if e.branch(e.fIsNaN(t)) {
		sign := c.Extract(t.w-1, t.w-1, t)
		if wt == 64 {
			return c.Concat(sign, c.BV(12, 0xfff), c.Extract(21, 0, t), c.BV(29, 0))
		}
		return c.Concat(sign, c.BV(9, 0x1ff), c.Extract(50, 29, t))
	}
	form, neg, mant, exp := e.fdecode(t)
	b := e.newBF()
	b.form, b.neg, b.mant, b.exp = form, neg, mant, exp
	b.prec = c.BV(32, 64)
	mb := 52
	if wt == 32 {
		mb = 23
	}
	f, _ := e.bfToFloat(b, wt, mb)
	return f
}

// f2i truncates a float to an integer; out-of-range conversions are
// implementation-defined in Go and not modelled.
func (e *Exec) f2i(t *Term, wt int, signed bool) *Term {
	c := e.c
	if e.branch(e.fIsNaN(t)) {
		e.unsupported("conversion of NaN to an integer")
	}
	form, neg, mant, exp := e.fdecode(t)
	switch form {
	case bfZero:
		return c.BV(wt, 0)
	case bfInf:
		e.unsupported("conversion of infinity to an integer")
	}
	if e.branch(c.Sle(exp, c.BV(64, 0))) {
		return c.BV(wt, 0)
	}
	lim := wt
	if signed {
		lim = wt - 1
	}
	if !e.branch(c.Sle(exp, c.BVi(64, int64(lim)))) {
		e.unsupported("out-of-range float to integer conversion")
	}
	n := int(e.conc(exp))
	u := c.Zext(e.top(e.trim(mant), n), wt)
	if signed {
		return c.Ite(neg, c.Neg(u), u)
	}
	if e.branch(neg) {
		e.unsupported("negative float to unsigned conversion")
	}
	return u
}

func (e *Exec) i2f(t *Term, wf int, signed bool, wt int) *Term {
	c := e.c
	neg := c.F
	v := t
	if signed {
		neg = c.Slt(t, c.BV(wf, 0))
		v = c.Ite(neg, c.Neg(t), t)
	}
	b := e.newBF()
	b.prec = c.BV(32, 64)
	e.bfSetUint(b, neg, v)
	mb := 52
	if wt == 32 {
		mb = 23
	}
	f, _ := e.bfToFloat(b, wt, mb)
	return f
}

var _ = big.NewInt
