package main

// Intrinsics for math, sync, strings.Builder, bytes.Buffer and low-level helpers.

import (
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func convFloatBits(u uint64, wf, wt int) uint64 {
	if wf == 32 && wt == 64 {
		return math.Float64bits(float64(math.Float32frombits(uint32(u))))
	}
	if wf == 64 && wt == 32 {
		return uint64(math.Float32bits(float32(math.Float64frombits(u))))
	}
	return u
}

// tryIntrinsic runs an intrinsic; it may decline.
func (e *Exec) tryIntrinsic(in intrinsic, f *ssa.Function, args []Value) (Value, bool) {
	r := in(e, f, args)
	if r == notHandled {
		return nil, false
	}
	return r, true
}

func (e *Exec) sb(v Value) *SB {
	p, ok := v.(ptr)
	if !ok {
		e.unsupported("builder receiver")
	}
	if p == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	b, ok := (*p).(*SB)
	if !ok {
		e.unsupported("builder cell")
	}
	return b
}

func (e *Exec) bytesStr(s sliceV) *Str {
	b := make([]SByte, len(s))
	for i := range s {
		b[i] = SByte{t: s[i].(*Term)}
	}
	return e.mkStr(b)
}

func (e *Exec) strSlice(s *Str) sliceV {
	b := e.strBytes(e.flat(s))
	r := make(sliceV, len(b))
	for i := range b {
		r[i] = b[i].t
	}
	return r
}

func (e *Exec) registerMisc(in map[string]intrinsic) {
	reg := func(name string, f func(e *Exec, a []Value) Value) {
		in[name] = func(e *Exec, fn *ssa.Function, a []Value) Value { return f(e, a) }
	}
	id := func(e *Exec, a []Value) Value { return a[0] }
	reg("math.Float64bits", id)
	reg("math.Float64frombits", id)
	reg("math.Float32bits", id)
	reg("math.Float32frombits", id)
	reg("math.IsNaN", func(e *Exec, a []Value) Value { return e.fIsNaN(a[0].(*Term)) })
	reg("math.Signbit", func(e *Exec, a []Value) Value { return e.c.V2B(e.c.Extract(63, 63, a[0].(*Term))) })
	reg("math.Abs", func(e *Exec, a []Value) Value { return e.c.Concat(e.c.BV(1, 0), e.c.Extract(62, 0, a[0].(*Term))) })
	reg("math.Copysign", func(e *Exec, a []Value) Value {
		return e.c.Concat(e.c.Extract(63, 63, a[1].(*Term)), e.c.Extract(62, 0, a[0].(*Term)))
	})
	reg("math.IsInf", func(e *Exec, a []Value) Value {
		c := e.c
		f, s := a[0].(*Term), a[1].(*Term)
		p, n := c.Eq(f, c.BV(64, 0x7FF0000000000000)), c.Eq(f, c.BV(64, 0xFFF0000000000000))
		return c.Or(c.And(c.Sle(c.BV(64, 0), s), p), c.And(c.Sle(s, c.BV(64, 0)), n))
	})
	reg("math.Sqrt", func(e *Exec, a []Value) Value { return e.c.FOp(OpFSqrt, a[0].(*Term)) })
	reg("math.sqrt", func(e *Exec, a []Value) Value { return e.c.FOp(OpFSqrt, a[0].(*Term)) })
	conc1 := func(name string, f func(float64) float64) {
		reg(name, func(e *Exec, a []Value) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				e.unsupported(name + " of a symbolic value")
			}
			return e.c.BV(64, math.Float64bits(f(math.Float64frombits(t.u))))
		})
	}
	conc1("math.Floor", math.Floor)
	conc1("math.Ceil", math.Ceil)
	conc1("math.Trunc", math.Trunc)
	conc1("math.Log2", math.Log2)
	conc1("math.Log", math.Log)
	conc1("math.Exp2", math.Exp2)
	conc1("math.Exp", math.Exp)
	reg("math.Pow", func(e *Exec, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if !x.isConst() || !y.isConst() {
			e.unsupported("math.Pow of a symbolic value")
		}
		return e.c.BV(64, math.Float64bits(math.Pow(math.Float64frombits(x.u), math.Float64frombits(y.u))))
	})
	// bits
	lz := func(w int) func(e *Exec, a []Value) Value {
		return func(e *Exec, a []Value) Value {
			c := e.c
			t := a[0].(*Term)
			r := c.BV(64, uint64(w))
			for k := 0; k < w; k++ {
				r = c.Ite(c.V2B(c.Extract(k, k, t)), c.BV(64, uint64(w-1-k)), r)
			}
			return r
		}
	}
	ln := func(w int) func(e *Exec, a []Value) Value {
		return func(e *Exec, a []Value) Value {
			c := e.c
			t := a[0].(*Term)
			r := c.BV(64, 0)
			for k := 0; k < w; k++ {
				r = c.Ite(c.V2B(c.Extract(k, k, t)), c.BV(64, uint64(k+1)), r)
			}
			return r
		}
	}
	tz := func(w int) func(e *Exec, a []Value) Value {
		return func(e *Exec, a []Value) Value {
			c := e.c
			t := a[0].(*Term)
			r := c.BV(64, uint64(w))
			for k := w - 1; k >= 0; k-- {
				r = c.Ite(c.V2B(c.Extract(k, k, t)), c.BV(64, uint64(k)), r)
			}
			return r
		}
	}
	for n, w := range map[string]int{"": 64, "8": 8, "16": 16, "32": 32, "64": 64} {
		reg("math/bits.LeadingZeros"+n, lz(w))
		reg("math/bits.Len"+n, ln(w))
		reg("math/bits.TrailingZeros"+n, tz(w))
	}
	reg("math/bits.Add64", func(e *Exec, a []Value) Value {
		c := e.c
		s := c.Add(c.Zext(a[0].(*Term), 65), c.Zext(a[1].(*Term), 65), c.Zext(c.Extract(0, 0, a[2].(*Term)), 65))
		return tupleV{c.Extract(63, 0, s), c.Zext(c.Extract(64, 64, s), 64)}
	})
	reg("math/bits.Sub64", func(e *Exec, a []Value) Value {
		c := e.c
		s := c.Sub(c.Sub(c.Zext(a[0].(*Term), 65), c.Zext(a[1].(*Term), 65)), c.Zext(c.Extract(0, 0, a[2].(*Term)), 65))
		return tupleV{c.Extract(63, 0, s), c.Zext(c.Extract(64, 64, s), 64)}
	})
	reg("math/bits.Mul64", func(e *Exec, a []Value) Value {
		c := e.c
		s := c.Mul(c.Zext(a[0].(*Term), 128), c.Zext(a[1].(*Term), 128))
		return tupleV{c.Extract(127, 64, s), c.Extract(63, 0, s)}
	})

	// sync: single-threaded
	nop := func(e *Exec, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(e *Exec, a []Value) Value { return e.c.T })
	reg("(*sync.Once).Do", func(e *Exec, a []Value) Value {
		p := a[0].(ptr)
		if !e.onceDone[p] {
			e.onceDone[p] = true
			e.call(a[1], nil)
		}
		return nil
	})
	// Pool: Get returns the most recently put value (the case that matters for
	// state leaking between calls), else New().
	reg("(*sync.Pool).Put", func(e *Exec, a []Value) Value {
		k := a[0].(ptr)
		l, _ := e.side[k].([]Value)
		e.side[k] = append(l, a[1])
		return nil
	})
	reg("(*sync.Pool).Get", func(e *Exec, a []Value) Value {
		k := a[0].(ptr)
		if l, _ := e.side[k].([]Value); len(l) > 0 {
			e.side[k] = l[:len(l)-1]
			return l[len(l)-1]
		}
		s := (*k).(structV)
		nf := s[len(s)-1]
		switch f := nf.(type) {
		case *ssa.Function:
			if f != nil {
				return e.call(f, nil)
			}
		case *closureV:
			if f != nil {
				return e.call(f, nil)
			}
		}
		return ifaceV{}
	})
	mapOf := func(e *Exec, v Value) *[]mapEnt {
		k := v.(ptr)
		l, _ := e.side[k].(*[]mapEnt)
		if l == nil {
			l = &[]mapEnt{}
			e.side[k] = l
		}
		return l
	}
	find := func(e *Exec, l *[]mapEnt, k Value) *mapEnt {
		for i := range *l {
			if e.branch(e.eqVal(nil, (*l)[i].k, k)) {
				return &(*l)[i]
			}
		}
		return nil
	}
	reg("(*sync.Map).Load", func(e *Exec, a []Value) Value {
		if x := find(e, mapOf(e, a[0]), a[1]); x != nil {
			return tupleV{x.v, e.c.T}
		}
		return tupleV{ifaceV{}, e.c.F}
	})
	reg("(*sync.Map).Store", func(e *Exec, a []Value) Value {
		l := mapOf(e, a[0])
		if x := find(e, l, a[1]); x != nil {
			x.v = a[2]
			return nil
		}
		*l = append(*l, mapEnt{a[1], a[2]})
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(e *Exec, a []Value) Value {
		l := mapOf(e, a[0])
		if x := find(e, l, a[1]); x != nil {
			return tupleV{x.v, e.c.T}
		}
		*l = append(*l, mapEnt{a[1], a[2]})
		return tupleV{a[2], e.c.F}
	})

	// strings.Builder and bytes.Buffer
	for _, T := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		reg(T+"WriteString", func(e *Exec, a []Value) Value {
			b, s := e.sb(a[0]), a[1].(*Str)
			n := e.c.BV(64, 0)
			has := false
			for _, x := range s.b {
				has = has || x.dec != nil
			}
			if !has {
				n = e.i64(e.strLen(s))
			}
			b.s = e.concat(b.s, s)
			return tupleV{n, ifaceV{}}
		})
		reg(T+"WriteByte", func(e *Exec, a []Value) Value {
			b := e.sb(a[0])
			b.s = e.concat(b.s, e.mkStr([]SByte{{t: a[1].(*Term)}}))
			return ifaceV{}
		})
		reg(T+"WriteRune", func(e *Exec, a []Value) Value {
			b := e.sb(a[0])
			t := a[1].(*Term)
			if !e.branch(e.c.Ult(t, e.c.BV(32, 0x80))) {
				v := e.conc(t)
				s := string(rune(sx(v, 32)))
				b.s = e.concat(b.s, lit(s))
				return tupleV{e.i64(len(s)), ifaceV{}}
			}
			b.s = e.concat(b.s, e.mkStr([]SByte{{t: e.c.Extract(7, 0, t)}}))
			return tupleV{e.i64(1), ifaceV{}}
		})
		reg(T+"Write", func(e *Exec, a []Value) Value {
			b, s := e.sb(a[0]), a[1].(sliceV)
			b.s = e.concat(b.s, e.bytesStr(s))
			return tupleV{e.i64(len(s)), ifaceV{}}
		})
		reg(T+"String", func(e *Exec, a []Value) Value {
			if a[0].(ptr) == nil {
				return lit("<nil>")
			}
			return e.sb(a[0]).s
		})
		reg(T+"Len", func(e *Exec, a []Value) Value { return e.i64(e.strLen(e.sb(a[0]).s)) })
		reg(T+"Reset", func(e *Exec, a []Value) Value { e.sb(a[0]).s = lit(""); return nil })
		reg(T+"Grow", nop)
	}
	reg("(*bytes.Buffer).Bytes", func(e *Exec, a []Value) Value { return e.strSlice(e.sb(a[0]).s) })

	// low-level string helpers
	reg("strings.Repeat", func(e *Exec, a []Value) Value {
		n := int(sx(e.conc(a[1].(*Term)), 64))
		s := a[0].(*Str)
		if n < 0 {
			e.rtPanic("strings: negative Repeat count")
		}
		if n > 1<<16 {
			e.unsupported("large Repeat")
		}
		if !s.sym {
			return lit(strings.Repeat(s.lit, n))
		}
		r := lit("")
		for i := 0; i < n; i++ {
			r = e.concat(r, s)
		}
		return r
	})
	litFn := func(name string, f func(e *Exec, s string, a []Value) Value) {
		reg(name, func(e *Exec, a []Value) Value {
			for _, v := range a {
				if s, ok := v.(*Str); ok && s.sym {
					return notHandled
				}
				if t, ok := v.(*Term); ok && !t.isConst() {
					return notHandled
				}
			}
			return f(e, a[0].(*Str).lit, a)
		})
	}
	litFn("strings.Index", func(e *Exec, s string, a []Value) Value { return e.i64(strings.Index(s, a[1].(*Str).lit)) })
	litFn("strings.IndexByte", func(e *Exec, s string, a []Value) Value { return e.i64(strings.IndexByte(s, byte(a[1].(*Term).u))) })
	litFn("strings.LastIndex", func(e *Exec, s string, a []Value) Value { return e.i64(strings.LastIndex(s, a[1].(*Str).lit)) })
	litFn("strings.ToLower", func(e *Exec, s string, a []Value) Value { return lit(strings.ToLower(s)) })
	litFn("strings.ToUpper", func(e *Exec, s string, a []Value) Value { return lit(strings.ToUpper(s)) })
	litFn("strings.Contains", func(e *Exec, s string, a []Value) Value { return e.c.Bool(strings.Contains(s, a[1].(*Str).lit)) })
	litFn("strings.Count", func(e *Exec, s string, a []Value) Value { return e.i64(strings.Count(s, a[1].(*Str).lit)) })
	idxByte := func(e *Exec, cells []*Term, b *Term) Value {
		for i, t := range cells {
			if e.branch(e.c.Eq(t, b)) {
				return e.i64(i)
			}
		}
		return e.i64(-1)
	}
	strTerms := func(e *Exec, s *Str) []*Term {
		var r []*Term
		for _, x := range e.strBytes(e.flat(s)) {
			r = append(r, x.t)
		}
		return r
	}
	sliceTerms := func(s sliceV) []*Term {
		var r []*Term
		for _, x := range s {
			r = append(r, x.(*Term))
		}
		return r
	}
	reg("internal/bytealg.IndexByteString", func(e *Exec, a []Value) Value { return idxByte(e, strTerms(e, a[0].(*Str)), a[1].(*Term)) })
	reg("internal/bytealg.IndexByte", func(e *Exec, a []Value) Value { return idxByte(e, sliceTerms(a[0].(sliceV)), a[1].(*Term)) })
	reg("internal/bytealg.CountString", func(e *Exec, a []Value) Value {
		n := 0
		for _, t := range strTerms(e, a[0].(*Str)) {
			if e.branch(e.c.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return e.i64(n)
	})
	reg("internal/bytealg.MakeNoZero", func(e *Exec, a []Value) Value {
		n := int(sx(e.conc(a[0].(*Term)), 64))
		r := make(sliceV, n)
		for i := range r {
			r[i] = e.c.BV(8, 0)
		}
		return r
	})
	reg("bytes.Equal", func(e *Exec, a []Value) Value {
		x, y := a[0].(sliceV), a[1].(sliceV)
		if len(x) != len(y) {
			return e.c.F
		}
		r := e.c.T
		for i := range x {
			r = e.c.And(r, e.c.Eq(x[i].(*Term), y[i].(*Term)))
		}
		return r
	})
	reg("errors.New", func(e *Exec, a []Value) Value { return e.mkErrorStr(a[0].(*Str)) })
	reg("unicode/utf8.RuneCountInString", func(e *Exec, a []Value) Value {
		s := a[0].(*Str)
		if s.sym {
			return notHandled
		}
		return e.i64(len([]rune(s.lit)))
	})
	// strconv
	itoa := func(e *Exec, v *Term, signed bool, base int) Value {
		c := e.c
		if v.isConst() {
			x := new(big.Int).SetUint64(v.u)
			if signed {
				x.SetInt64(v.s64())
			}
			return lit(x.Text(base))
		}
		if base == 10 {
			return e.decSeg(v, signed)
		}
		neg := c.F
		if signed {
			neg = c.Slt(v, c.BV(64, 0))
		}
		if e.branch(neg) {
			return e.concat(lit("-"), e.digitsOf(c.Neg(v), base, 0, false))
		}
		return e.digitsOf(v, base, 0, false)
	}
	reg("strconv.Itoa", func(e *Exec, a []Value) Value { return itoa(e, a[0].(*Term), true, 10) })
	reg("strconv.FormatInt", func(e *Exec, a []Value) Value {
		return itoa(e, a[0].(*Term), true, int(e.conc(a[1].(*Term))))
	})
	reg("strconv.FormatUint", func(e *Exec, a []Value) Value {
		return itoa(e, a[0].(*Term), false, int(e.conc(a[1].(*Term))))
	})
	reg("strconv.AppendInt", func(e *Exec, a []Value) Value {
		s := itoa(e, a[1].(*Term), true, int(e.conc(a[2].(*Term)))).(*Str)
		return append(append(sliceV{}, a[0].(sliceV)...), e.strSlice(s)...)
	})
	reg("strconv.AppendUint", func(e *Exec, a []Value) Value {
		s := itoa(e, a[1].(*Term), false, int(e.conc(a[2].(*Term)))).(*Str)
		return append(append(sliceV{}, a[0].(sliceV)...), e.strSlice(s)...)
	})
}

// decSeg is the decimal rendering of a symbolic 64-bit integer.
func (e *Exec) decSeg(v *Term, signed bool) *Str {
	if !signed {
		if e.branch(e.c.Slt(v, e.c.BV(64, 0))) {
			e.unsupported("decimal text of a large symbolic uint64")
		}
	}
	return e.mkStr([]SByte{{dec: v}})
}

// digitsOf renders an unsigned term in a power-of-two base with at least
// minDigits digits (zero padded).
func (e *Exec) digitsOf(v *Term, base, minDigits int, upper bool) *Str {
	c := e.c
	bp := map[int]int{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[base]
	if bp == 0 {
		e.unsupported("text of a symbolic integer in this base")
	}
	n := (v.w + bp - 1) / bp
	vv := c.Zext(v, n*bp)
	if minDigits < n {
		// fewer digits than the type could need: fork on the real count
		fits := c.T
		if minDigits > 0 {
			fits = e.wz(c.Extract(n*bp-1, minDigits*bp, vv))
		} else {
			fits = e.wz(vv)
		}
		if e.branch(fits) {
			n = max(minDigits, 1)
		} else {
			lz := e.clz(vv)
			n = (n*bp - lz + bp - 1) / bp
		}
	}
	var b []SByte
	for k := n; k < minDigits; k++ {
		b = append(b, SByte{t: c.BV(8, '0')})
	}
	for k := n - 1; k >= 0; k-- {
		d := c.Extract(k*bp+bp-1, k*bp, vv)
		if bp <= 3 {
			b = append(b, SByte{t: c.Concat(c.BV(8-bp, '0'>>uint(bp)), d)})
			continue
		}
		d8 := c.Zext(d, 8)
		ha := uint64('a' - 10)
		if upper {
			ha = 'A' - 10
		}
		ch := c.Ite(c.Ult(d8, c.BV(8, 10)), c.Add(d8, c.BV(8, '0')), c.Add(d8, c.BV(8, ha)))
		if !ch.isConst() {
			e.digOf[ch] = digHint{d8, base}
		}
		b = append(b, SByte{t: ch})
	}
	return e.mkStr(b)
}
