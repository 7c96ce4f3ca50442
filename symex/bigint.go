package main

// Model of math/big.Int: a sign and a magnitude term of any width.

import (
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type BI struct {
	neg *Term
	mag *Term // nil for zero; otherwise any width, possibly with zero value
}

func (b *BI) structCopy() *BI { c := *b; return &c }

func (e *Exec) bi(v Value) *BI {
	p, ok := v.(ptr)
	if !ok {
		e.unsupported("big.Int receiver")
	}
	if p == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	b, ok := (*p).(*BI)
	if !ok {
		e.unsupported("big.Int cell")
	}
	return b
}

func (e *Exec) wz(t *Term) *Term { return e.c.Eq(t, e.c.BVBig(t.w, new(big.Int))) }

// biSet stores a magnitude, dropping leading zero bits known statically.
func (e *Exec) biSet(z *BI, neg, mag *Term) {
	if mag == nil || isZero(mag) {
		*z = BI{neg: e.c.F}
		return
	}
	if mag.isConst() {
		v := mag.big()
		mag = e.c.BVBig(v.BitLen(), v)
	} else {
		for mag.op == OpConcat && isZero(mag.args[0]) {
			mag = e.c.Extract(mag.w-mag.args[0].w-1, 0, mag)
		}
		if mag.op == OpConcat && mag.args[0].isConst() {
			v := mag.args[0].big()
			if d := mag.args[0].w - v.BitLen(); d > 0 {
				mag = e.c.Extract(mag.w-d-1, 0, mag)
			}
		}
	}
	if mag.w > 4*e.eng.maxWidth {
		e.unsupported("huge big.Int")
	}
	*z = BI{neg: neg, mag: mag}
}

func (e *Exec) magOr(b *BI) *Term {
	if b.mag == nil {
		return e.c.BV(1, 0)
	}
	return b.mag
}

func (e *Exec) biZero(b *BI) *Term {
	if b.mag == nil {
		return e.c.T
	}
	return e.wz(b.mag)
}

// biNeg: the value is negative (never for zero).
func (e *Exec) biNeg(b *BI) *Term {
	if b.mag == nil || b.neg.isFalse() {
		return e.c.F
	}
	return e.c.And(b.neg, e.c.Not(e.wz(b.mag)))
}

func (e *Exec) biBitLen(b *BI) *Term {
	c := e.c
	if b.mag == nil {
		return c.BV(64, 0)
	}
	r := c.BV(64, 0)
	for k := 0; k < b.mag.w; k++ {
		r = c.Ite(c.V2B(c.Extract(k, k, b.mag)), c.BV(64, uint64(k+1)), r)
	}
	return r
}

func (e *Exec) pad2(a, b *Term, extra int) (*Term, *Term) {
	w := max(a.w, b.w) + extra
	return e.c.Zext(a, w), e.c.Zext(b, w)
}

// biAddSigned computes x + y with y's sign given.
func (e *Exec) biAdd(z, x, y *BI, yneg *Term) {
	c := e.c
	xneg := e.biNeg(x)
	a, b := e.pad2(e.magOr(x), e.magOr(y), 1)
	if e.branch(c.Eq(xneg, yneg)) {
		e.biSet(z, xneg, e.wideAdd(a, b))
		return
	}
	if e.branch(c.Ult(a, b)) {
		e.biSet(z, yneg, e.wideSub(b, a))
	} else {
		e.biSet(z, xneg, e.wideSub(a, b))
	}
}

func (e *Exec) biCmp(x, y *BI, abs bool) *Term {
	c := e.c
	a, b := e.pad2(e.magOr(x), e.magOr(y), 0)
	lt, gt := c.Ult(a, b), c.Ult(b, a)
	if !abs {
		xn, yn := e.biNeg(x), e.biNeg(y)
		lt, gt = c.Ite(xn, c.Ite(yn, c.Ult(b, a), c.T), c.Ite(yn, c.F, c.Ult(a, b))),
			c.Ite(xn, c.Ite(yn, c.Ult(a, b), c.F), c.Ite(yn, c.T, c.Ult(b, a)))
	}
	return c.Ite(lt, c.BVi(64, -1), c.Ite(gt, c.BV(64, 1), c.BV(64, 0)))
}

func (e *Exec) fromNativeInt(z *BI, v *big.Int) {
	if v.Sign() == 0 {
		*z = BI{neg: e.c.F}
		return
	}
	*z = BI{neg: e.c.Bool(v.Sign() < 0), mag: e.c.BVBig(v.BitLen(), new(big.Int).Abs(v))}
}

func (e *Exec) toNativeInt(z *BI) (*big.Int, bool) {
	if z.mag == nil {
		return new(big.Int), true
	}
	if !z.mag.isConst() || !z.neg.isConst() {
		return nil, false
	}
	v := new(big.Int).Set(z.mag.big())
	if z.neg.isTrue() {
		v.Neg(v)
	}
	return v, true
}

func (e *Exec) registerInt(in map[string]intrinsic) {
	m := func(name string, f func(e *Exec, z *BI, a []Value) Value) {
		in["(*math/big.Int)."+name] = func(e *Exec, fn *ssa.Function, a []Value) Value {
			return f(e, e.bi(a[0]), a)
		}
	}
	tm := func(v Value) *Term { return v.(*Term) }
	in["math/big.NewInt"] = func(e *Exec, fn *ssa.Function, a []Value) Value {
		z := &BI{}
		x := tm(a[0])
		neg := e.c.Slt(x, e.c.BV(64, 0))
		e.biSet(z, neg, e.c.Ite(neg, e.c.Neg(x), x))
		p := new(Value)
		*p = z
		return p
	}
	m("Set", func(e *Exec, z *BI, a []Value) Value { *z = *e.bi(a[1]); return a[0] })
	m("SetInt64", func(e *Exec, z *BI, a []Value) Value {
		x := tm(a[1])
		neg := e.c.Slt(x, e.c.BV(64, 0))
		e.biSet(z, neg, e.c.Ite(neg, e.c.Neg(x), x))
		return a[0]
	})
	m("SetUint64", func(e *Exec, z *BI, a []Value) Value { e.biSet(z, e.c.F, tm(a[1])); return a[0] })
	m("Uint64", func(e *Exec, z *BI, a []Value) Value {
		// low 64 bits of the magnitude, two's complement for negatives
		c := e.c
		mg := e.magOr(z)
		if mg.w > 64 {
			mg = c.Extract(63, 0, mg)
		} else {
			mg = c.Zext(mg, 64)
		}
		return c.Ite(e.biNeg(z), c.Neg(mg), mg)
	})
	in["(*math/big.Int).Int64"] = in["(*math/big.Int).Uint64"]
	m("IsUint64", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		mg := e.magOr(z)
		ok := c.Not(e.biNeg(z))
		if mg.w > 64 {
			ok = c.And(ok, e.wz(c.Extract(mg.w-1, 64, mg)))
		}
		return ok
	})
	m("IsInt64", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		mg := c.Zext(e.magOr(z), max(65, e.magOr(z).w))
		lim := c.Ite(e.biNeg(z), c.BVBig(mg.w, new(big.Int).Lsh(bigOne, 63)), c.BVBig(mg.w, new(big.Int).SetUint64(1<<63-1)))
		return c.Ule(mg, lim)
	})
	m("Sign", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		return c.Ite(e.biZero(z), c.BV(64, 0), c.Ite(z.neg, c.BVi(64, -1), c.BV(64, 1)))
	})
	m("Neg", func(e *Exec, z *BI, a []Value) Value {
		x := e.bi(a[1])
		n := e.biNeg(x)
		e.biSet(z, e.c.And(e.c.Not(n), e.c.Not(e.biZero(x))), x.mag)
		return a[0]
	})
	m("Abs", func(e *Exec, z *BI, a []Value) Value { e.biSet(z, e.c.F, e.bi(a[1]).mag); return a[0] })
	m("Add", func(e *Exec, z *BI, a []Value) Value {
		x, y := *e.bi(a[1]), *e.bi(a[2])
		e.biAdd(z, &x, &y, e.biNeg(&y))
		return a[0]
	})
	m("Sub", func(e *Exec, z *BI, a []Value) Value {
		x, y := *e.bi(a[1]), *e.bi(a[2])
		e.biAdd(z, &x, &y, e.c.And(e.c.Not(e.biNeg(&y)), e.c.Not(e.biZero(&y))))
		return a[0]
	})
	m("Mul", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		x, y := *e.bi(a[1]), *e.bi(a[2])
		if x.mag == nil || y.mag == nil {
			*z = BI{neg: c.F}
			return a[0]
		}
		w := x.mag.w + y.mag.w
		e.biSet(z, c.Xor1(e.biNeg(&x), e.biNeg(&y)), c.Mul(c.Zext(x.mag, w), c.Zext(y.mag, w)))
		return a[0]
	})
	shiftAmt := func(e *Exec, v Value) int {
		n := e.conc(tm(v))
		if n > uint64(2*e.eng.maxWidth) {
			e.unsupported("huge shift")
		}
		return int(n)
	}
	m("Lsh", func(e *Exec, z *BI, a []Value) Value {
		x := *e.bi(a[1])
		n := shiftAmt(e, a[2])
		if x.mag == nil || n == 0 {
			*z = x
			return a[0]
		}
		e.biSet(z, x.neg, e.c.Concat(x.mag, e.c.BVBig(n, new(big.Int))))
		return a[0]
	})
	m("Rsh", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		x := *e.bi(a[1])
		n := shiftAmt(e, a[2])
		if x.mag == nil || n == 0 {
			*z = x
			return a[0]
		}
		neg := e.biNeg(&x)
		if n >= x.mag.w {
			if e.branch(neg) {
				e.biSet(z, c.T, c.BV(1, 1))
			} else {
				*z = BI{neg: c.F}
			}
			return a[0]
		}
		q := c.Extract(x.mag.w-1, n, x.mag)
		if e.branch(neg) {
			// floor division
			st := c.Not(e.wz(c.Extract(n-1, 0, x.mag)))
			q = c.Add(c.Zext(q, q.w+1), c.Zext(c.B2V(st), q.w+1))
			e.biSet(z, c.T, q)
			return a[0]
		}
		e.biSet(z, c.F, q)
		return a[0]
	})
	bitop := func(name string, f func(c *Ctx, x, y *Term) *Term) {
		m(name, func(e *Exec, z *BI, a []Value) Value {
			x, y := *e.bi(a[1]), *e.bi(a[2])
			if e.branch(e.c.Or(e.biNeg(&x), e.biNeg(&y))) {
				e.unsupported("bitwise operation on a negative big.Int")
			}
			p, q := e.pad2(e.magOr(&x), e.magOr(&y), 0)
			e.biSet(z, e.c.F, f(e.c, p, q))
			return a[0]
		})
	}
	bitop("And", func(c *Ctx, x, y *Term) *Term { return c.BvAnd(x, y) })
	bitop("Or", func(c *Ctx, x, y *Term) *Term { return c.BvOr(x, y) })
	bitop("Xor", func(c *Ctx, x, y *Term) *Term { return c.BvXor(x, y) })
	bitop("AndNot", func(c *Ctx, x, y *Term) *Term { return c.BvAnd(x, c.BvNot(y)) })
	m("SetBit", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		x := *e.bi(a[1])
		n := shiftAmt(e, a[2])
		b := tm(a[3])
		if e.branch(c.Ult(c.BV(64, 1), b)) {
			e.rtPanic("set bit is not 0 or 1")
		}
		if e.branch(e.biNeg(&x)) {
			e.unsupported("SetBit on a negative big.Int")
		}
		mg := e.magOr(&x)
		mg = c.Zext(mg, max(mg.w, n+1))
		var parts []*Term
		if n+1 < mg.w {
			parts = append(parts, c.Extract(mg.w-1, n+1, mg))
		}
		parts = append(parts, c.Extract(0, 0, b))
		if n > 0 {
			parts = append(parts, c.Extract(n-1, 0, mg))
		}
		e.biSet(z, c.F, c.Concat(parts...))
		return a[0]
	})
	m("Bit", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		n := shiftAmt(e, a[1])
		if e.branch(e.biNeg(z)) {
			e.unsupported("Bit of a negative big.Int")
		}
		mg := e.magOr(z)
		if n >= mg.w {
			return c.BV(64, 0)
		}
		return c.Zext(c.Extract(n, n, mg), 64)
	})
	m("BitLen", func(e *Exec, z *BI, a []Value) Value { return e.biBitLen(z) })
	m("TrailingZeroBits", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		r := c.BV(64, 0)
		mg := e.magOr(z)
		for k := mg.w - 1; k >= 0; k-- {
			r = c.Ite(c.V2B(c.Extract(k, k, mg)), c.BV(64, uint64(k)), r)
		}
		return r
	})
	m("Cmp", func(e *Exec, z *BI, a []Value) Value { return e.biCmp(z, e.bi(a[1]), false) })
	m("CmpAbs", func(e *Exec, z *BI, a []Value) Value { return e.biCmp(z, e.bi(a[1]), true) })
	div := func(name string, rem bool) {
		m(name, func(e *Exec, z *BI, a []Value) Value {
			x, y := *e.bi(a[1]), *e.bi(a[2])
			if e.branch(e.biZero(&y)) {
				e.rtPanic("division by zero")
			}
			if name == "Div" || name == "Mod" {
				if e.branch(e.c.Or(e.biNeg(&x), e.biNeg(&y))) {
					e.unsupported("Euclidean division of a negative big.Int")
				}
			}
			p, q := e.pad2(e.magOr(&x), e.magOr(&y), 0)
			if rem {
				e.biSet(z, e.biNeg(&x), e.c.Urem(p, q))
			} else {
				e.biSet(z, e.c.Xor1(e.biNeg(&x), e.biNeg(&y)), e.c.Udiv(p, q))
			}
			return a[0]
		})
	}
	div("Quo", false)
	div("Div", false)
	div("Rem", true)
	div("Mod", true)
	m("SetBytes", func(e *Exec, z *BI, a []Value) Value {
		s := a[1].(sliceV)
		if len(s) == 0 {
			*z = BI{neg: e.c.F}
			return a[0]
		}
		parts := make([]*Term, len(s))
		for i := range s {
			parts[i] = s[i].(*Term)
		}
		e.biSet(z, e.c.F, e.c.Concat(parts...))
		return a[0]
	})
	m("FillBytes", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		s := a[1].(sliceV)
		mg := e.magOr(z)
		if mg.w > 8*len(s) {
			if !e.branch(e.wz(c.Extract(mg.w-1, 8*len(s), mg))) {
				e.rtPanic("math/big: buffer too small to fit value")
			}
			mg = c.Extract(8*len(s)-1, 0, mg)
		}
		mg = c.Zext(mg, 8*len(s))
		for i := range s {
			k := len(s) - 1 - i
			s[i] = c.Extract(8*k+7, 8*k, mg)
		}
		return s
	})
	m("Bytes", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		n := int(e.conc(c.Udiv(c.Add(e.biBitLen(z), c.BV(64, 7)), c.BV(64, 8))))
		r := make(sliceV, n)
		mg := e.magOr(z)
		mg = c.Zext(mg, max(mg.w, 8*n))
		for i := range r {
			k := n - 1 - i
			r[i] = c.Extract(8*k+7, 8*k, mg)
		}
		return r
	})
	m("Bits", func(e *Exec, z *BI, a []Value) Value {
		c := e.c
		n := int(e.conc(c.Udiv(c.Add(e.biBitLen(z), c.BV(64, 63)), c.BV(64, 64))))
		r := make(sliceV, n)
		mg := e.magOr(z)
		mg = c.Zext(mg, max(mg.w, 64*n))
		for i := range r {
			r[i] = c.Extract(64*i+63, 64*i, mg)
		}
		return r
	})
	m("SetBits", func(e *Exec, z *BI, a []Value) Value {
		s := a[1].(sliceV)
		if len(s) == 0 {
			*z = BI{neg: e.c.F}
			return a[0]
		}
		parts := make([]*Term, len(s))
		for i := range s {
			parts[len(s)-1-i] = s[i].(*Term)
		}
		e.biSet(z, e.c.F, e.c.Concat(parts...))
		return a[0]
	})
}

// nativeBig calls a math/big method natively when every argument is concrete.
// It reports false if the call cannot be made that way.
func (e *Exec) nativeBig(f *ssa.Function, args []Value) (Value, bool) {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "math/big" || f.Signature.Recv() == nil || len(args) == 0 {
		return nil, false
	}
	name := f.Name()
	if strings.HasPrefix(name, "init") {
		return nil, false
	}
	type wb struct {
		cell ptr
		v    reflect.Value
	}
	var backs []wb
	conv := func(v Value) (reflect.Value, bool) {
		switch x := v.(type) {
		case ptr:
			if x == nil {
				return reflect.Value{}, false
			}
			for _, b := range backs {
				if b.cell == x {
					return b.v, true
				}
			}
			switch y := (*x).(type) {
			case *BF:
				g, ok := e.toNative(y)
				if !ok || y.alias != nil {
					return reflect.Value{}, false
				}
				r := reflect.ValueOf(g)
				backs = append(backs, wb{x, r})
				return r, true
			case *BI:
				g, ok := e.toNativeInt(y)
				if !ok {
					return reflect.Value{}, false
				}
				r := reflect.ValueOf(g)
				backs = append(backs, wb{x, r})
				return r, true
			}
		case *Str:
			if !x.sym {
				return reflect.ValueOf(x.lit), true
			}
		case *Term:
			if x.isConst() {
				if x.w == 0 {
					return reflect.ValueOf(x.isTrue()), true
				}
				return reflect.ValueOf(x.u), true
			}
		case sliceV:
			b := make([]byte, len(x))
			for i := range x {
				t, ok := x[i].(*Term)
				if !ok || !t.isConst() || t.w != 8 {
					return reflect.Value{}, false
				}
				b[i] = byte(t.u)
			}
			return reflect.ValueOf(b), true
		}
		return reflect.Value{}, false
	}
	var recv reflect.Value
	if p, ok := args[0].(ptr); ok {
		r, ok := conv(p)
		if !ok {
			return nil, false
		}
		recv = r
	} else if t, ok := args[0].(*Term); ok && t.isConst() {
		switch namedPath(f.Signature.Recv().Type()) {
		case "math/big.Accuracy":
			recv = reflect.ValueOf(big.Accuracy(t.s64()))
		case "math/big.RoundingMode":
			recv = reflect.ValueOf(big.RoundingMode(t.u))
		default:
			return nil, false
		}
	} else {
		return nil, false
	}
	mt := recv.MethodByName(name)
	if !mt.IsValid() || mt.Type().IsVariadic() || mt.Type().NumIn() != len(args)-1 {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args[1:] {
		want := mt.Type().In(i)
		r, ok := conv(a)
		if !ok {
			if p, isP := a.(ptr); isP && p == nil {
				in = append(in, reflect.Zero(want))
				continue
			}
			return nil, false
		}
		if r.Type() != want {
			if t, isT := a.(*Term); isT && t.w > 0 {
				switch want.Kind() {
				case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
					r = reflect.ValueOf(t.s64()).Convert(want)
				case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
					r = reflect.ValueOf(t.u).Convert(want)
				default:
					return nil, false
				}
			} else if r.Type().ConvertibleTo(want) {
				r = r.Convert(want)
			} else {
				return nil, false
			}
		}
		in = append(in, r)
	}
	var outs []reflect.Value
	panicked := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = "math/big panic"
			}
		}()
		outs = mt.Call(in)
	}()
	if panicked != "" {
		panic(targetPanic{v: ifaceV{}, msg: panicked})
	}
	for _, b := range backs {
		switch y := (*b.cell).(type) {
		case *BF:
			g := b.v.Interface().(*big.Float)
			e.fromNative(y, g)
		case *BI:
			e.fromNativeInt(y, b.v.Interface().(*big.Int))
		}
	}
	var res []Value
	for _, o := range outs {
		switch o.Kind() {
		case reflect.String:
			res = append(res, lit(o.String()))
		case reflect.Bool:
			res = append(res, e.c.Bool(o.Bool()))
		case reflect.Int, reflect.Int64:
			res = append(res, e.c.BVi(64, o.Int()))
		case reflect.Int8:
			res = append(res, e.c.BVi(8, o.Int()))
		case reflect.Int32:
			res = append(res, e.c.BVi(32, o.Int()))
		case reflect.Uint, reflect.Uint64:
			res = append(res, e.c.BV(64, o.Uint()))
		case reflect.Uint32:
			res = append(res, e.c.BV(32, o.Uint()))
		case reflect.Uint8:
			res = append(res, e.c.BV(8, o.Uint()))
		case reflect.Pointer:
			done := false
			for _, b := range backs {
				if b.v.Pointer() == o.Pointer() {
					res = append(res, b.cell)
					done = true
					break
				}
			}
			if !done {
				p := new(Value)
				switch x := o.Interface().(type) {
				case *big.Float:
					if x == nil {
						res = append(res, ptr(nil))
						continue
					}
					bf := e.newBF()
					e.fromNative(bf, x)
					*p = bf
				case *big.Int:
					if x == nil {
						res = append(res, ptr(nil))
						continue
					}
					bi := &BI{}
					e.fromNativeInt(bi, x)
					*p = bi
				default:
					return nil, false
				}
				res = append(res, p)
			}
		case reflect.Slice:
			if b, ok := o.Interface().([]byte); ok {
				s := make(sliceV, len(b))
				for i := range b {
					s[i] = e.c.BV(8, uint64(b[i]))
				}
				res = append(res, s)
				continue
			}
			return nil, false
		case reflect.Interface:
			if o.IsNil() {
				res = append(res, ifaceV{})
			} else if err, ok := o.Interface().(error); ok {
				res = append(res, e.errV(err.Error()))
			} else {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	switch len(res) {
	case 0:
		return nil, true
	case 1:
		return res[0], true
	}
	return tupleV(res), true
}

func (e *Exec) registerIntText(in map[string]intrinsic) {
	text := func(e *Exec, z *BI, base int) *Str {
		sign := lit("")
		if e.branch(e.biNeg(z)) {
			sign = lit("-")
		}
		return e.concat(sign, e.digitsOf(e.magOr(z), base, 0, false))
	}
	native := func(e *Exec, fn *ssa.Function, z *BI, a []Value) (Value, bool) {
		if !z.neg.isConst() || z.mag != nil && !z.mag.isConst() {
			return nil, false
		}
		return e.nativeBig(fn, a)
	}
	reg := func(name string, f func(e *Exec, z *BI, a []Value) Value) {
		in["(*math/big.Int)."+name] = func(e *Exec, fn *ssa.Function, a []Value) Value {
			z := e.bi(a[0])
			if v, ok := native(e, fn, z, a); ok {
				return v
			}
			return f(e, z, a)
		}
	}
	reg("Text", func(e *Exec, z *BI, a []Value) Value { return text(e, z, e.cint(a[1])) })
	reg("String", func(e *Exec, z *BI, a []Value) Value { return text(e, z, 10) })
	reg("Append", func(e *Exec, z *BI, a []Value) Value {
		s := text(e, z, e.cint(a[2]))
		var r sliceV
		r = append(r, a[1].(sliceV)...)
		for _, b := range e.strBytes(s) {
			r = append(r, b.t)
		}
		return r
	})
	in["(*math/big.Int).SetString"] = func(e *Exec, fn *ssa.Function, a []Value) Value {
		c := e.c
		z := e.bi(a[0])
		s := a[1].(*Str)
		base := e.cint(a[2])
		if !s.sym {
			g, ok := new(big.Int).SetString(s.lit, base)
			if !ok {
				return tupleV{ptr(nil), c.F}
			}
			if g.Sign() == 0 {
				*z = BI{neg: c.F}
			} else {
				m := new(big.Int).Abs(g)
				e.biSet(z, c.Bool(g.Sign() < 0), c.BVBig(m.BitLen(), m))
			}
			return tupleV{a[0], c.T}
		}
		bs := e.strBytes(s)
		for _, b := range bs {
			if b.dec != nil {
				e.unsupported("SetString of a formatted decimal")
			}
		}
		fail := tupleV{ptr(nil), c.F}
		neg := c.F
		if len(bs) > 0 && bs[0].t.isConst() && (bs[0].t.u == '-' || bs[0].t.u == '+') {
			neg = c.Bool(bs[0].t.u == '-')
			bs = bs[1:]
		}
		if base == 0 {
			if len(bs) > 2 && bs[0].t.isConst() && bs[1].t.isConst() && bs[0].t.u == '0' {
				base = map[byte]int{'b': 2, 'B': 2, 'o': 8, 'O': 8, 'x': 16, 'X': 16}[byte(bs[1].t.u)]
				bs = bs[2:]
			}
			if base == 0 {
				e.unsupported("base of a symbolic number")
			}
		}
		if len(bs) == 0 {
			return fail
		}
		if base > 36 {
			e.unsupported("SetString in this base")
		}
		bp := map[int]int{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[base]
		w := len(bs) * 6
		acc := c.BV(w, 0)
		var parts []*Term
		for _, b := range bs {
			d, valid := e.digit(b.t, base)
			if !e.branchWhole(valid) {
				return fail
			}
			if bp != 0 {
				parts = append(parts, c.Extract(bp-1, 0, d))
			} else {
				acc = c.Add(c.Mul(acc, c.BV(w, uint64(base))), c.Zext(d, w))
			}
		}
		if bp != 0 {
			acc = c.Concat(parts...)
		}
		e.biSet(z, neg, acc)
		return tupleV{a[0], c.T}
	}
}
