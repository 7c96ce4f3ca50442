package main

// Model of fmt.Sprintf and friends.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) registerFmt(in map[string]intrinsic) {
	reg := func(name string, f func(e *Exec, a []Value) Value) {
		in[name] = func(e *Exec, fn *ssa.Function, a []Value) Value { return f(e, a) }
	}
	va := func(v Value) []Value { s, _ := v.(sliceV); return s }
	reg("fmt.Sprintf", func(e *Exec, a []Value) Value { return e.sprintf(a[0].(*Str), va(a[1])) })
	reg("fmt.Errorf", func(e *Exec, a []Value) Value { return e.mkErrorStr(e.sprintf(a[0].(*Str), va(a[1]))) })
	sprint := func(e *Exec, args []Value, ln bool) *Str {
		r := lit("")
		for i, x := range args {
			if i > 0 && (ln || !isString1(args[i-1]) && !isString1(x)) {
				r = e.concat(r, lit(" "))
			}
			r = e.concat(r, e.fmtArg(spec{verb: 'v', width: -1, prec: -1}, x.(ifaceV)))
		}
		if ln {
			r = e.concat(r, lit("\n"))
		}
		return r
	}
	reg("fmt.Sprint", func(e *Exec, a []Value) Value { return sprint(e, va(a[0]), false) })
	reg("fmt.Sprintln", func(e *Exec, a []Value) Value { return sprint(e, va(a[0]), true) })
	appendTo := func(e *Exec, b Value, s *Str) Value {
		return append(append(sliceV{}, b.(sliceV)...), e.strSlice(s)...)
	}
	reg("fmt.Appendf", func(e *Exec, a []Value) Value { return appendTo(e, a[0], e.sprintf(a[1].(*Str), va(a[2]))) })
	reg("fmt.Append", func(e *Exec, a []Value) Value { return appendTo(e, a[0], sprint(e, va(a[1]), false)) })
	fpr := func(e *Exec, w Value, s *Str) Value {
		i := w.(ifaceV)
		if p, ok := i.v.(ptr); ok && p != nil {
			if b, ok := (*p).(*SB); ok {
				b.s = e.concat(b.s, s)
				return tupleV{e.c.BV(64, 0), ifaceV{}}
			}
		}
		e.unsupported("Fprintf to this writer")
		return nil
	}
	reg("fmt.Fprintf", func(e *Exec, a []Value) Value { return fpr(e, a[0], e.sprintf(a[1].(*Str), va(a[2]))) })
	reg("fmt.Fprint", func(e *Exec, a []Value) Value { return fpr(e, a[0], sprint(e, va(a[1]), false)) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(e *Exec, a []Value) Value { return tupleV{e.c.BV(64, 0), ifaceV{}} })
	}
}

func isString1(v Value) bool {
	i, ok := v.(ifaceV)
	return ok && i.t != nil && isString(i.t)
}

type spec struct {
	minus, plus, sharp, space, zero bool
	width, prec                     int
	verb                            rune
}

func (s spec) String() string {
	r := "%"
	if s.minus {
		r += "-"
	}
	if s.plus {
		r += "+"
	}
	if s.sharp {
		r += "#"
	}
	if s.space {
		r += " "
	}
	if s.zero {
		r += "0"
	}
	if s.width >= 0 {
		r += strconv.Itoa(s.width)
	}
	if s.prec >= 0 {
		r += "." + strconv.Itoa(s.prec)
	}
	return r + string(s.verb)
}

func (e *Exec) sprintf(f *Str, args []Value) *Str {
	if f.sym {
		e.unsupported("symbolic format string")
	}
	r := lit("")
	s := f.lit
	ai := 0
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] != '%' {
			j++
		}
		if j > i {
			r = e.concat(r, lit(s[i:j]))
			i = j
			continue
		}
		i++
		sp := spec{width: -1, prec: -1}
	flags:
		for ; i < len(s); i++ {
			switch s[i] {
			case '-':
				sp.minus, sp.zero = true, false
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = !sp.minus
			default:
				break flags
			}
		}
		star := func() int {
			if ai >= len(args) {
				e.unsupported("bad format")
			}
			a := args[ai].(ifaceV)
			ai++
			t, ok := a.v.(*Term)
			if !ok {
				e.unsupported("bad format width")
			}
			return int(sx(e.conc(t), t.w))
		}
		num := func() int {
			n, any := 0, false
			for i < len(s) && '0' <= s[i] && s[i] <= '9' {
				n = n*10 + int(s[i]-'0')
				any = true
				i++
			}
			if !any {
				return -1
			}
			return n
		}
		if i < len(s) && s[i] == '*' {
			i++
			sp.width = star()
			if sp.width < 0 {
				sp.minus, sp.zero, sp.width = true, false, -sp.width
			}
		} else {
			sp.width = num()
		}
		if i < len(s) && s[i] == '.' {
			i++
			if i < len(s) && s[i] == '*' {
				i++
				sp.prec = star()
			} else if sp.prec = num(); sp.prec < 0 {
				sp.prec = 0
			}
		}
		if i >= len(s) || s[i] >= 0x80 || s[i] == '[' {
			e.unsupported("format string")
		}
		sp.verb = rune(s[i])
		i++
		if sp.verb == '%' {
			r = e.concat(r, lit("%"))
			continue
		}
		if ai >= len(args) {
			r = e.concat(r, lit("%!"+string(sp.verb)+"(MISSING)"))
			continue
		}
		a := args[ai].(ifaceV)
		ai++
		r = e.concat(r, e.fmtArg(sp, a))
	}
	if ai < len(args) {
		e.unsupported("extra format arguments")
	}
	return r
}

// natArg converts a concrete argument to a native Go value.
func (e *Exec) natArg(a ifaceV) (interface{}, bool) {
	if a.t == nil {
		return nil, true
	}
	switch x := a.v.(type) {
	case *Str:
		if x.sym || namedPath(a.t) != "" && e.methodOf(a.t, "String") != nil {
			return nil, false
		}
		return x.lit, true
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		switch namedPath(a.t) {
		case "math/big.Accuracy":
			return big.Accuracy(x.s64()), true
		case "math/big.RoundingMode":
			return big.RoundingMode(x.u), true
		}
		if e.methodOf(a.t, "String") != nil || e.methodOf(a.t, "Error") != nil || e.methodOf(a.t, "Format") != nil {
			return nil, false
		}
		b, ok := under(a.t).(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.isTrue(), true
		case types.Int:
			return int(x.s64()), true
		case types.Int8:
			return int8(x.s64()), true
		case types.Int16:
			return int16(x.s64()), true
		case types.Int32:
			return int32(x.s64()), true
		case types.Int64:
			return x.s64(), true
		case types.Uint:
			return uint(x.u), true
		case types.Uint8:
			return uint8(x.u), true
		case types.Uint16:
			return uint16(x.u), true
		case types.Uint32:
			return uint32(x.u), true
		case types.Uint64:
			return x.u, true
		case types.Float32:
			return math.Float32frombits(uint32(x.u)), true
		case types.Float64:
			return math.Float64frombits(x.u), true
		}
	case ptr:
		if x == nil {
			return nil, false
		}
		switch y := (*x).(type) {
		case *BF:
			if g, ok := e.toNative(y); ok {
				return g, true
			}
		case *BI:
			if g, ok := e.toNativeInt(y); ok {
				return g, true
			}
		}
	}
	return nil, false
}

func (e *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return e.prog.MethodValue(s)
		}
	}
	return nil
}

func (e *Exec) fmtArg(sp spec, a ifaceV) *Str {
	if v, ok := e.natArg(a); ok {
		return lit(fmt.Sprintf(sp.String(), v))
	}
	c := e.c
	if a.t == nil {
		e.unsupported("fmt of nil")
	}
	// error and Stringer
	if sp.verb == 'v' || sp.verb == 's' || sp.verb == 'q' {
		for _, n := range []string{"Error", "String"} {
			if m := e.methodOf(a.t, n); m != nil && m.Signature.Params().Len() == 0 {
				if p, isP := a.v.(ptr); isP && p != nil {
					switch (*p).(type) {
					case *BF, *BI:
						e.unsupported("text of a symbolic number")
					}
				}
				r := e.call(m, []Value{copyVal(a.v)})
				s, ok := r.(*Str)
				if !ok {
					e.unsupported("String method")
				}
				return e.padStr(sp, s)
			}
		}
	}
	if p, ok := a.v.(ptr); ok && p != nil {
		if b, ok := (*p).(*BI); ok {
			base := map[rune]int{'b': 2, 'o': 8, 'x': 16, 'X': 16}[sp.verb]
			if base == 0 || sp.prec >= 0 || sp.sharp || sp.space {
				e.unsupported("fmt of a symbolic big.Int")
			}
			sign := ""
			if e.branch(b.neg) {
				sign = "-"
			} else if sp.plus {
				sign = "+"
			}
			if sp.zero && sp.width > 0 {
				return e.concat(lit(sign), e.digitsOf(e.magOr(b), base, max(sp.width-len(sign), 1), sp.verb == 'X'))
			}
			return e.padStr(sp, e.concat(lit(sign), e.digitsOf(e.magOr(b), base, 0, sp.verb == 'X')))
		}
	}
	if s, ok := a.v.(sliceV); ok {
		if sl, ok := under(a.t).(*types.Slice); ok {
			if bt, ok := under(sl.Elem()).(*types.Basic); ok && bt.Kind() == types.Uint8 {
				switch sp.verb {
				case 's':
					return e.padStr(sp, e.bytesStr(s))
				case 'x', 'X':
					if sp.prec < 0 && !sp.sharp && !sp.space {
						r := lit("")
						for _, v := range s {
							r = e.concat(r, e.digitsOf(v.(*Term), 16, 2, sp.verb == 'X'))
						}
						return e.padStr(sp, r)
					}
				}
			}
		}
	}
	switch x := a.v.(type) {
	case *Str:
		if sp.verb == 's' || sp.verb == 'v' {
			return e.padStr(sp, x)
		}
	case *Term:
		w, signed, ok := basicInfo(a.t)
		if !ok || isFloat(a.t) {
			e.unsupported("fmt of this symbolic value")
		}
		if w == 0 {
			if sp.verb == 't' || sp.verb == 'v' {
				if e.branch(x) {
					return e.padStr(sp, lit("true"))
				}
				return e.padStr(sp, lit("false"))
			}
			e.unsupported("fmt of a bool")
		}
		if sp.verb == 'c' {
			if e.branch(c.Ult(x, c.BV(w, 0x80))) && sp.width < 0 {
				if w > 8 {
					x = c.Extract(7, 0, x)
				}
				return e.mkStr([]SByte{{t: x}})
			}
			e.unsupported("%c of a symbolic value")
		}
		if sp.prec >= 0 || sp.sharp || sp.space {
			if len(fmt.Sprint(x)) > 0 {
				// concretise only narrow values
				if w > 16 {
					e.unsupported("format flags on a symbolic value")
				}
			}
			v := c.BVBig(w, new(big.Int).SetUint64(e.conc(x)))
			return e.fmtArg(sp, ifaceV{t: a.t, v: v})
		}
		base := map[rune]int{'b': 2, 'o': 8, 'x': 16, 'X': 16, 'd': 10, 'v': 10}[sp.verb]
		if base == 0 {
			e.unsupported("verb %" + string(sp.verb))
		}
		neg := c.F
		if signed {
			neg = c.Slt(x, c.BV(w, 0))
		}
		if base == 10 && sp.width <= 0 && !sp.plus {
			v := x
			if w < 64 {
				if signed {
					v = c.Sext(x, 64)
				} else {
					v = c.Zext(x, 64)
				}
			}
			return e.decSeg(v, signed)
		}
		sign := ""
		mag := x
		if e.branch(neg) {
			sign = "-"
			mag = c.Neg(x)
		} else if sp.plus {
			sign = "+"
		}
		if base == 10 {
			if sp.width <= 0 {
				return e.concat(lit(sign), e.decSeg(c.Zext(mag, 64), false))
			}
			if w > 32 {
				// a padded decimal: small ranges only
				if !e.branch(c.Ult(mag, c.BV(w, 4096))) {
					e.unsupported("padded decimal of a symbolic value")
				}
			}
			v := c.BV(w, e.conc(x))
			return e.fmtArg(sp, ifaceV{t: a.t, v: v})
		}
		if sp.zero && sp.width > 0 {
			return e.concat(lit(sign), e.digitsOf(mag, base, max(sp.width-len(sign), 1), sp.verb == 'X'))
		}
		return e.padStr(sp, e.concat(lit(sign), e.digitsOf(mag, base, 0, sp.verb == 'X')))
	}
	e.unsupported(fmt.Sprintf("fmt of %s", a.t))
	return nil
}

// padStr applies width and precision to a string.
func (e *Exec) padStr(sp spec, s *Str) *Str {
	if sp.prec >= 0 {
		s = e.flat(s)
		if n := e.strLen(s); n > sp.prec {
			s = e.mkStr(e.strBytes(s)[:sp.prec])
		}
	}
	if sp.width <= 0 {
		return s
	}
	n := e.strLen(s)
	if n >= sp.width {
		return s
	}
	pad := ""
	for i := n; i < sp.width; i++ {
		if sp.zero {
			pad += "0"
		} else {
			pad += " "
		}
	}
	if sp.minus {
		return e.concat(s, lit(pad))
	}
	return e.concat(lit(pad), s)
}
