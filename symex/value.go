package main

// Values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type (
	structV []Value
	arrayV  []Value
	sliceV  []Value // nil slice is a nil sliceV
	tupleV  []Value
	ifaceV  struct {
		t types.Type // nil for the nil interface
		v Value
	}
	closureV struct {
		fn  *ssa.Function
		env []Value
	}
	mapEnt struct{ k, v Value }
	mapV   struct {
		ents []mapEnt
		mt   *types.Map
	}
	ptr = *Value
	// iterator over a map or string
	iterV struct {
		m   *mapV
		i   int
		str *Str
	}
	// an interpreter-level native object (strings.Builder, bytes.Buffer)
	SB struct {
		s   *Str
		off int
	}
	// an opaque value that can only be passed around
	opaqueV struct{ what string }
)

// SByte is one element of a string: a byte term, or a whole decimal rendering
// of a symbolic signed integer.
type SByte struct {
	t   *Term
	dec *Term // 64-bit signed integer rendered in decimal
}

// Str is a string value. If b is nil the string is the literal lit.
type Str struct {
	lit string
	b   []SByte
	sym bool
}

func lit(s string) *Str { return &Str{lit: s} }

func (e *Exec) strBytes(s *Str) []SByte {
	if s.sym {
		return s.b
	}
	r := make([]SByte, len(s.lit))
	for i := 0; i < len(s.lit); i++ {
		r[i] = SByte{t: e.c.BV(8, uint64(s.lit[i]))}
	}
	return r
}

// mkStr builds a Str, collapsing to a literal when everything is constant.
func (e *Exec) mkStr(b []SByte) *Str {
	var sb strings.Builder
	for _, x := range b {
		if x.dec != nil {
			if x.dec.isConst() {
				fmt.Fprintf(&sb, "%d", x.dec.s64())
				continue
			}
			return &Str{b: b, sym: true}
		}
		if !x.t.isConst() {
			return &Str{b: b, sym: true}
		}
		sb.WriteByte(byte(x.t.u))
	}
	return lit(sb.String())
}

func (e *Exec) concat(a, b *Str) *Str {
	if !a.sym && !b.sym {
		return lit(a.lit + b.lit)
	}
	x := append(append([]SByte{}, e.strBytes(a)...), e.strBytes(b)...)
	return e.mkStr(x)
}

// flat expands decimal segments (forking on their value).
func (e *Exec) flat(s *Str) *Str {
	if !s.sym {
		return s
	}
	has := false
	for _, x := range s.b {
		if x.dec != nil {
			has = true
		}
	}
	if !has {
		return s
	}
	var r []SByte
	for _, x := range s.b {
		if x.dec != nil {
			v := e.conc(x.dec)
			for _, ch := range []byte(fmt.Sprint(sx(v, 64))) {
				r = append(r, SByte{t: e.c.BV(8, uint64(ch))})
			}
		} else {
			r = append(r, x)
		}
	}
	return e.mkStr(r)
}

func (e *Exec) strLen(s *Str) int {
	s = e.flat(s)
	if s.sym {
		return len(s.b)
	}
	return len(s.lit)
}

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

func namedPath(t types.Type) string {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// width gives bit width and signedness of an integer/bool/float basic type.
func basicInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return 32, false, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Exec) zero(t types.Type) Value {
	switch namedPath(t) {
	case "math/big.Float":
		return e.newBF()
	case "math/big.Int":
		return &BI{neg: e.c.F}
	case "strings.Builder", "bytes.Buffer":
		return &SB{s: lit("")}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(u) {
			return lit("")
		}
		if u.Kind() == types.UnsafePointer {
			return ptr(nil)
		}
		w, _, ok := basicInfo(u)
		if !ok {
			e.unsupported("type " + t.String())
		}
		if w == 0 {
			return e.c.F
		}
		return e.c.BV(w, 0)
	case *types.Pointer:
		return ptr(nil)
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(arrayV, u.Len())
		for i := range a {
			a[i] = e.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return sliceV(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Interface:
		return ifaceV{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		r := make(tupleV, u.Len())
		for i := range r {
			r[i] = e.zero(u.At(i).Type())
		}
		return r
	case *types.Chan:
		return opaqueV{"nil chan"}
	}
	e.unsupported("zero of " + t.String())
	return nil
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case structV:
		r := make(structV, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case arrayV:
		r := make(arrayV, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case *BF:
		return v.structCopy()
	case *BI:
		return v.structCopy()
	case *SB:
		c := *v
		return &c
	}
	return v
}

func (e *Exec) storeVal(p ptr, v Value) {
	switch v := v.(type) {
	case structV:
		if old, ok := (*p).(structV); ok && len(old) == len(v) {
			for i := range v {
				e.storeVal(&old[i], v[i])
			}
			return
		}
	case arrayV:
		if old, ok := (*p).(arrayV); ok && len(old) == len(v) {
			for i := range v {
				e.storeVal(&old[i], v[i])
			}
			return
		}
	case *BF:
		if old, ok := (*p).(*BF); ok {
			if old != v {
				e.specStop()
				n := v.structCopy()
				*old = *n
			}
			return
		}
	case *BI:
		if old, ok := (*p).(*BI); ok {
			if old != v {
				e.specStop()
				n := v.structCopy()
				*old = *n
			}
			return
		}
	}
	e.logCell(p)
	*p = copyVal(v)
}

// eqVal gives the condition under which two values of static type t are equal.
func (e *Exec) eqVal(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		if isFloat(t) {
			return e.feq(x, b.(*Term))
		}
		return e.c.Eq(x, b.(*Term))
	case *Str:
		y := b.(*Str)
		if !x.sym && !y.sym {
			return e.c.Bool(x.lit == y.lit)
		}
		x, y = e.flat(x), e.flat(y)
		xb, yb := e.strBytes(x), e.strBytes(y)
		if len(xb) != len(yb) {
			return e.c.F
		}
		r := e.c.T
		for i := range xb {
			r = e.c.And(r, e.c.Eq(xb[i].t, yb[i].t))
		}
		return r
	case ptr:
		y, _ := b.(ptr)
		return e.c.Bool(x == y)
	case structV:
		y := b.(structV)
		st := under(t).(*types.Struct)
		r := e.c.T
		for i := range x {
			if st.Field(i).Name() != "_" {
				r = e.c.And(r, e.eqVal(st.Field(i).Type(), x[i], y[i]))
			}
		}
		return r
	case arrayV:
		y := b.(arrayV)
		el := under(t).(*types.Array).Elem()
		r := e.c.T
		for i := range x {
			r = e.c.And(r, e.eqVal(el, x[i], y[i]))
		}
		return r
	case ifaceV:
		y := b.(ifaceV)
		if x.t == nil || y.t == nil {
			return e.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.c.F
		}
		return e.eqVal(x.t, x.v, y.v)
	case *mapV:
		y, _ := b.(*mapV)
		return e.c.Bool(x == y)
	case *ssa.Function:
		y, _ := b.(*ssa.Function)
		return e.c.Bool(x == y)
	case *closureV:
		return e.c.Bool(false)
	case sliceV:
		y, _ := b.(sliceV)
		return e.c.Bool(x == nil && y == nil)
	}
	e.unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}
