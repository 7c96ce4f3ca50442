package main

// SSA interpreter over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// control-flow signals raised with panic()
type targetPanic struct {
	v   Value
	msg string
}
type pathStop struct {
	kind string // "assume", "unsupported", "cap", "violation", "infeasible"
	msg  string
}

func (e *Exec) unsupported(msg string) {
	panic(pathStop{"unsupported", msg + e.where()})
}

func (e *Exec) where() string {
	if e.fr != nil {
		pos := e.prog.Fset.Position(e.pos)
		return fmt.Sprintf(" (in %s at %s:%d)", e.fr.fn, pos.Filename, pos.Line)
	}
	return ""
}

func (e *Exec) rtPanic(msg string) {
	panic(targetPanic{v: ifaceV{t: types.Typ[types.String], v: lit("runtime error: " + msg)}, msg: "runtime error: " + msg})
}

type frame struct {
	e         *Exec
	caller    *frame
	fn        *ssa.Function
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []func()
	result    Value
	panicking bool
	pan       interface{}
	recovered bool
	// phi values at a join whose two sides were merged
	merged   []Value
	mergedAt *ssa.BasicBlock
}

const maxDepth = 400

func (e *Exec) global(g *ssa.Global) ptr {
	if p, ok := e.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && !e.inited[g.Pkg] {
		e.initPkg(g.Pkg)
		if p, ok := e.globals[g]; ok {
			return p
		}
	}
	return e.allocGlobal(g)
}

func (e *Exec) allocGlobal(g *ssa.Global) ptr {
	if p, ok := e.globals[g]; ok {
		return p
	}
	v := e.zero(g.Type().(*types.Pointer).Elem())
	p := new(Value)
	*p = v
	e.globals[g] = p
	return p
}

// initPkg runs a package's variable initialisers (imports are initialised
// lazily, on the first use of one of their variables).
func (e *Exec) initPkg(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.specStop()
	e.inited[p] = true
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		e.inInit++
		e.callFn(f, nil, nil)
		e.inInit--
	}
}

func (fr *frame) get(v ssa.Value) Value {
	e := fr.e
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return e.global(v)
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s %T in %s", v.Name(), v, fr.fn))
}

func (e *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if _, ok := under(t).(*types.Interface); ok {
		e.unsupported("const of interface type")
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return lit(constant.StringVal(c.Value))
		}
		return lit(string(rune(c.Int64())))
	}
	w, _, ok := basicInfo(t)
	if !ok {
		e.unsupported("const type " + t.String())
	}
	if w == 0 {
		return e.c.Bool(constant.BoolVal(c.Value))
	}
	if isFloat(t) {
		if w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return e.c.BV(32, uint64(math.Float32bits(f)))
		}
		f, _ := constant.Float64Val(c.Value)
		return e.c.BV(64, math.Float64bits(f))
	}
	iv := constant.ToInt(c.Value)
	if i, exact := constant.Int64Val(iv); exact {
		return e.c.BVi(w, i)
	}
	u, _ := constant.Uint64Val(iv)
	return e.c.BV(w, u)
}

// call invokes a function value.
func (e *Exec) call(fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return e.callFn(f, args, nil)
	case *closureV:
		return e.callFn(f.fn, args, f.env)
	}
	e.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (e *Exec) callFn(f *ssa.Function, args []Value, env []Value) (res Value) {
	key := fnKey(f)
	if f.Pkg != nil && f.Name() == "init" && f.Pkg.Func("init") == f && e.inInit > 0 && !(e.fr == nil) && e.fr.fn.Name() == "init" && e.fr.fn.Pkg != f.Pkg {
		return nil // lazily initialised instead
	}
	if in, ok := e.eng.intr[key]; ok {
		e.specCall(key, args)
		if r, done := e.tryIntrinsic(in, f, args); done {
			return r
		}
	}
	if f.Pkg != nil {
		if e.spec != nil && f.Pkg.Pkg.Path() == "math/big" {
			e.specCall(key, args)
		}
		if r, done := e.nativeBig(f, args); done {
			return r
		}
	}
	if f.Blocks == nil {
		e.unsupported("external function " + key)
	}
	if f.Pkg != nil && e.inInit == 0 && f.Pkg.Pkg.Path() == "math/big" {
		e.unsupported("math/big function without a model: " + key)
	}
	if ok, cut := e.outcome[key]; cut && boolResult(f) {
		if !ok {
			return e.c.F
		}
		defer func() {
			if r := recover(); r != nil {
				panic(r)
			}
			if t, isT := res.(*Term); isT {
				if !e.branch(t) {
					panic(pathStop{"assume", ""})
				}
			}
		}()
	}
	e.eng.noteFn(f)
	if f.Pkg != nil && !e.inited[f.Pkg] && e.eng.eager(f.Pkg) {
		e.initPkg(f.Pkg)
	}
	e.depth++
	if e.depth > maxDepth {
		panic(pathStop{"cap", "call depth" + e.where()})
	}
	fr := &frame{e: e, caller: e.fr, fn: f, env: make(map[ssa.Value]Value, 16), block: f.Blocks[0]}
	save, savePos := e.fr, e.pos
	e.fr = fr
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range f.Locals {
		p := new(Value)
		*p = e.zero(l.Type().(*types.Pointer).Elem())
		fr.env[l] = p
	}
	defer func() {
		e.fr, e.pos = save, savePos
		e.depth--
	}()
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

// run executes blocks until return; handles target panics through defers.
func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r) // engine signal
		}
		fr.e.fr = fr
		fr.panicking = true
		fr.pan = r
		fr.runDefers()
		if fr.panicking {
			panic(fr.pan)
		}
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = fr.e.zeroResult(fr.fn)
		}
	}()
	for {
		next := fr.runBlock()
		if next == nil {
			fr.block = nil
			return
		}
		fr.prev, fr.block = fr.block, next
	}
}

func (e *Exec) zeroResult(f *ssa.Function) Value {
	rs := f.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return e.zero(rs.At(0).Type())
	}
	return e.zero(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); !ok {
						panic(r)
					}
					fr.panicking = true
					fr.pan = r
				}
			}()
			d()
		}()
	}
}

func (fr *frame) runBlock() *ssa.BasicBlock {
	e := fr.e
	b := fr.block
	// phis in parallel
	i := 0
	var phiVals []Value
	if fr.mergedAt == b {
		phiVals = fr.merged
		i = len(phiVals)
	} else {
		phiVals = fr.phiValues(b)
		i = len(phiVals)
	}
	fr.mergedAt, fr.merged = nil, nil
	for k := 0; k < i; k++ {
		fr.env[b.Instrs[k].(*ssa.Phi)] = phiVals[k]
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.steps++
		if e.steps&15 == 0 && e.sol.late() {
			panic(pathStop{"cap", "time budget used up"})
		}
		if e.steps > e.eng.maxSteps {
			panic(pathStop{"cap", "step limit" + e.where()})
		}
		if p := in.Pos(); p != token.NoPos {
			e.pos = p
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			p := new(Value)
			*p = e.zero(in.Type().(*types.Pointer).Elem())
			if in.Heap {
				fr.env[in] = p
			} else {
				// local: reuse the same cell, reset
				fr.env[in] = p
			}
		case *ssa.UnOp:
			fr.env[in] = e.unop(in, fr.get(in.X))
		case *ssa.BinOp:
			fr.env[in] = e.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y))
		case *ssa.Call:
			fv, args := fr.prepCall(&in.Call)
			fr.env[in] = fr.doCall(&in.Call, fv, args)
		case *ssa.ChangeInterface:
			fr.env[in] = fr.get(in.X)
		case *ssa.ChangeType:
			fr.env[in] = fr.get(in.X)
		case *ssa.Convert:
			fr.env[in] = e.convert(in.Type(), in.X.Type(), fr.get(in.X))
		case *ssa.MultiConvert:
			fr.env[in] = e.convert(in.Type(), in.X.Type(), fr.get(in.X))
		case *ssa.SliceToArrayPointer:
			e.unsupported("slice to array pointer")
		case *ssa.MakeInterface:
			fr.env[in] = ifaceV{t: in.X.Type(), v: copyVal(fr.get(in.X))}
		case *ssa.Extract:
			fr.env[in] = fr.get(in.Tuple).(tupleV)[in.Index]
		case *ssa.Slice:
			fr.env[in] = e.slice(in, fr)
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = copyVal(fr.get(in.Results[0]))
			default:
				t := make(tupleV, len(in.Results))
				for k, r := range in.Results {
					t[k] = copyVal(fr.get(r))
				}
				fr.result = t
			}
			return nil
		case *ssa.RunDefers:
			fr.runDefers()
			if fr.panicking {
				panic(fr.pan)
			}
		case *ssa.Panic:
			v := fr.get(in.X)
			panic(targetPanic{v: v, msg: e.panicText(v)})
		case *ssa.Store:
			p, _ := fr.get(in.Addr).(ptr)
			if p == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			e.storeVal(p, fr.get(in.Val))
		case *ssa.If:
			c := fr.get(in.Cond).(*Term)
			if _, known := e.known[c]; !known && !c.isConst() && !e.linearMode {
				e.forks[in]++
				if e.spec != nil || e.forks[in] > specAfter && !e.noMerge[in] {
					if j, ok := fr.tryMerge(b, c); ok {
						return j
					}
					e.specStop()
					if e.forks[in] > 4*specAfter {
						e.noMerge[in] = true
					}
				}
			}
			if e.branch(c) {
				return b.Succs[0]
			}
			return b.Succs[1]
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.Defer:
			e.specStop()
			fv, args := fr.prepCall(&in.Call)
			cc := &in.Call
			fr.defers = append(fr.defers, func() { fr.doCall(cc, fv, args) })
		case *ssa.MakeClosure:
			cl := &closureV{fn: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				cl.env = append(cl.env, fr.get(x))
			}
			fr.env[in] = cl
		case *ssa.MakeSlice:
			n := int(sx(e.conc(fr.get(in.Len).(*Term)), 64))
			c := int(sx(e.conc(fr.get(in.Cap).(*Term)), 64))
			if n < 0 || c < n {
				e.rtPanic("makeslice: len out of range")
			}
			if c > 1<<16 {
				e.unsupported("large slice")
			}
			s := make(sliceV, c)
			el := under(in.Type()).(*types.Slice).Elem()
			for k := range s {
				s[k] = e.zero(el)
			}
			if e.spec != nil && n > 0 {
				e.spec.fresh[&s[0]] = true
			}
			fr.env[in] = s[:n]
		case *ssa.MakeMap:
			fr.env[in] = &mapV{mt: under(in.Type()).(*types.Map)}
		case *ssa.MakeChan, *ssa.Go, *ssa.Select, *ssa.Send:
			e.unsupported(fmt.Sprintf("concurrency (%T)", in))
		case *ssa.Range:
			switch x := fr.get(in.X).(type) {
			case *mapV:
				fr.env[in] = &iterV{m: x}
			case *Str:
				fr.env[in] = &iterV{str: e.flat(x)}
			default:
				e.unsupported("range")
			}
		case *ssa.Next:
			fr.env[in] = e.next(in, fr.get(in.Iter).(*iterV))
		case *ssa.FieldAddr:
			p, _ := fr.get(in.X).(ptr)
			if p == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structV)
			if !ok {
				e.unsupported(fmt.Sprintf("field of %T", *p))
			}
			fr.env[in] = &s[in.Field]
		case *ssa.Field:
			s, ok := fr.get(in.X).(structV)
			if !ok {
				e.unsupported("field of opaque value")
			}
			fr.env[in] = copyVal(s[in.Field])
		case *ssa.IndexAddr:
			x := fr.get(in.X)
			idx := fr.get(in.Index).(*Term)
			var cells []Value
			switch x := x.(type) {
			case sliceV:
				cells = x
			case ptr:
				if x == nil {
					e.rtPanic("invalid memory address or nil pointer dereference")
				}
				cells = (*x).(arrayV)
			default:
				e.unsupported("indexaddr")
			}
			k := e.index(idx, in.Index.Type(), len(cells))
			fr.env[in] = &cells[k]
		case *ssa.Index:
			x := fr.get(in.X)
			idx := fr.get(in.Index).(*Term)
			switch x := x.(type) {
			case arrayV:
				fr.env[in] = e.readIndex(x, idx, in.Index.Type())
			case *Str:
				fr.env[in] = e.strIndex(x, idx, in.Index.Type())
			default:
				e.unsupported("index")
			}
		case *ssa.Lookup:
			fr.env[in] = e.lookup(in, fr.get(in.X), fr.get(in.Index))
		case *ssa.MapUpdate:
			e.specStop()
			m := fr.get(in.Map).(*mapV)
			if m == nil {
				e.rtPanic("assignment to entry in nil map")
			}
			e.mapSet(m, fr.get(in.Key), fr.get(in.Value))
		case *ssa.TypeAssert:
			fr.env[in] = e.typeAssert(in, fr.get(in.X).(ifaceV))
		default:
			e.unsupported(fmt.Sprintf("instruction %T", in))
		}
	}
	panic("block without terminator")
}

func (e *Exec) panicText(v Value) string {
	i, ok := v.(ifaceV)
	if !ok {
		return "panic"
	}
	switch x := i.v.(type) {
	case *Str:
		if !x.sym {
			return x.lit
		}
	}
	if i.t != nil {
		return "panic of type " + i.t.String()
	}
	return "panic(nil)"
}

// index checks bounds and concretises an index.
func (e *Exec) index(idx *Term, t types.Type, n int) int {
	w, signed, _ := basicInfo(t)
	if w < 64 {
		if signed {
			idx = e.c.Sext(idx, 64)
		} else {
			idx = e.c.Zext(idx, 64)
		}
	}
	in := e.c.Ult(idx, e.c.BV(64, uint64(n)))
	if !e.branch(in) {
		e.rtPanic("index out of range")
	}
	return int(e.conc(idx))
}

// readIndex reads an array element; small tables of scalars become an ite chain.
func (e *Exec) readIndex(a []Value, idx *Term, t types.Type) Value {
	if !idx.isConst() && len(a) <= 256 {
		all := true
		for _, x := range a {
			if _, ok := x.(*Term); !ok {
				all = false
			}
		}
		if all {
			w, signed, _ := basicInfo(t)
			i64 := idx
			if w < 64 {
				if signed {
					i64 = e.c.Sext(idx, 64)
				} else {
					i64 = e.c.Zext(idx, 64)
				}
			}
			if !e.branch(e.c.Ult(i64, e.c.BV(64, uint64(len(a))))) {
				e.rtPanic("index out of range")
			}
			return e.table(i64, a)
		}
	}
	return copyVal(a[e.index(idx, t, len(a))])
}

// table reads a[i64] for an index known to be in range. An index that is a
// linear form of small values is resolved one value at a time.
func (e *Exec) table(i64 *Term, a []Value) *Term {
	c := e.c
	es, k := c.linear(i64)
	combos := 1
	for _, x := range es {
		if x.atom.umax > 256 || combos > 512 {
			combos = 1 << 20
			break
		}
		combos *= int(x.atom.umax-x.atom.umin) + 1
	}
	if combos > 512 || linMax(es, k).Cmp(big.NewInt(int64(len(a)-1))) > 0 {
		es, k = []linEnt{{bigOne, i64}}, new(big.Int)
	}
	var build func(es []linEnt, at int) *Term
	build = func(es []linEnt, at int) *Term {
		if len(es) == 0 {
			return a[at].(*Term)
		}
		t, co := es[0].atom, int(es[0].coef.Int64())
		lo, hi := 0, (len(a)-1-at)/co
		if t.umin <= uint64(hi) {
			lo = int(t.umin)
		}
		if t.umax <= uint64(hi) {
			hi = int(t.umax)
			t = c.narrow(t)
		}
		r := build(es[1:], at+co*hi)
		for k := hi - 1; k >= lo; k-- {
			r = c.Ite(c.Eq(t, c.BV(t.w, uint64(k))), build(es[1:], at+co*k), r)
		}
		return r
	}
	return build(es, int(k.Int64()))
}

func (e *Exec) strIndex(s *Str, idx *Term, t types.Type) Value {
	s = e.flat(s)
	b := e.strBytes(s)
	vals := make([]Value, len(b))
	for i := range b {
		vals[i] = b[i].t
	}
	return e.readIndex(vals, idx, t)
}

func (e *Exec) lookup(in *ssa.Lookup, x, k Value) Value {
	if s, ok := x.(*Str); ok {
		return e.strIndex(s, k.(*Term), in.Index.Type())
	}
	m := x.(*mapV)
	var v Value
	found := false
	if m != nil {
		if ent := e.mapFind(m, k); ent != nil {
			v, found = copyVal(ent.v), true
		}
	}
	if !found {
		v = e.zero(under(in.X.Type()).(*types.Map).Elem())
	}
	if in.CommaOk {
		return tupleV{v, e.c.Bool(found)}
	}
	return v
}

func (e *Exec) mapFind(m *mapV, k Value) *mapEnt {
	for i := range m.ents {
		if e.branch(e.eqVal(m.mt.Key(), m.ents[i].k, k)) {
			return &m.ents[i]
		}
	}
	return nil
}

func (e *Exec) mapSet(m *mapV, k, v Value) {
	if ent := e.mapFind(m, k); ent != nil {
		ent.v = copyVal(v)
		return
	}
	m.ents = append(m.ents, mapEnt{copyVal(k), copyVal(v)})
}

func (e *Exec) next(in *ssa.Next, it *iterV) Value {
	if in.IsString {
		b := e.strBytes(it.str)
		if it.i >= len(b) {
			return tupleV{e.c.F, e.c.BV(64, 0), e.c.BV(32, 0)}
		}
		i := it.i
		t := b[i].t
		if !e.branch(e.c.Ult(t, e.c.BV(8, 0x80))) {
			if !it.str.sym {
				for j, r := range it.str.lit[i:] {
					_ = j
					n := len(string(r))
					if r == 0xFFFD {
						n = 1
					}
					it.i += n
					return tupleV{e.c.T, e.c.BV(64, uint64(i)), e.c.BV(32, uint64(r))}
				}
			}
			e.unsupported("non-ASCII symbolic string")
		}
		it.i++
		return tupleV{e.c.T, e.c.BV(64, uint64(i)), e.c.Zext(t, 32)}
	}
	if it.m == nil || it.i >= len(it.m.ents) {
		tt := in.Type().(*types.Tuple)
		var k, v Value
		if it.m != nil {
			k, v = e.zero(it.m.mt.Key()), e.zero(it.m.mt.Elem())
		} else {
			_ = tt
		}
		return tupleV{e.c.F, k, v}
	}
	ent := it.m.ents[it.i]
	it.i++
	return tupleV{e.c.T, copyVal(ent.k), copyVal(ent.v)}
}

func (e *Exec) typeAssert(in *ssa.TypeAssert, x ifaceV) Value {
	ok := false
	if x.t != nil {
		if it, isI := under(in.AssertedType).(*types.Interface); isI {
			ok = types.Implements(x.t, it) || types.AssertableTo(it, x.t) && types.Implements(x.t, it)
		} else {
			ok = types.Identical(x.t, in.AssertedType)
		}
	}
	var v Value
	if ok {
		if _, isI := under(in.AssertedType).(*types.Interface); isI {
			v = x
		} else {
			v = copyVal(x.v)
		}
	} else {
		if !in.CommaOk {
			e.rtPanic("interface conversion")
		}
		v = e.zero(in.AssertedType)
	}
	if in.CommaOk {
		return tupleV{v, e.c.Bool(ok)}
	}
	return v
}

func (fr *frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	e := fr.e
	var args []Value
	if c.IsInvoke() {
		recv := fr.get(c.Value).(ifaceV)
		if recv.t == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		f := e.prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			e.unsupported("method " + c.Method.Name() + " of " + recv.t.String())
		}
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return f, args
	}
	fv := fr.get(c.Value)
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fv, args
}

func (fr *frame) doCall(c *ssa.CallCommon, fv Value, args []Value) Value {
	if b, ok := fv.(*ssa.Builtin); ok {
		return fr.builtin(b, c, args)
	}
	return fr.e.call(fv, args)
}

func (e *Exec) i64(n int) *Term { return e.c.BVi(64, int64(n)) }

func (fr *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	e := fr.e
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return e.i64(e.strLen(x))
		case sliceV:
			return e.i64(len(x))
		case arrayV:
			return e.i64(len(x))
		case *mapV:
			if x == nil {
				return e.i64(0)
			}
			return e.i64(len(x.ents))
		case ptr:
			return e.i64(int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return e.i64(cap(x))
		case arrayV:
			return e.i64(len(x))
		case ptr:
			return e.i64(int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		}
	case "append":
		s := args[0].(sliceV)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case sliceV:
			add = y
		case *Str:
			for _, x := range e.strBytes(e.flat(y)) {
				add = append(add, x.t)
			}
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			n := len(s)
			s = s[:n+len(add)]
			for i, x := range add {
				if _, isT := s[n+i].(*Term); !isT {
					e.specStop()
				}
				e.logCell(&s[n+i])
				s[n+i] = copyVal(x)
			}
			return s
		}
		nc := 2 * (len(s) + len(add))
		n := make(sliceV, len(s)+len(add), nc)
		for i := range s {
			n[i] = s[i]
		}
		for i, x := range add {
			n[len(s)+i] = copyVal(x)
		}
		// spare capacity needs valid cells
		full := n[:nc]
		el := under(c.Args[0].Type()).(*types.Slice).Elem()
		for i := len(n); i < nc; i++ {
			full[i] = e.zero(el)
		}
		if e.spec != nil && len(n) > 0 {
			e.spec.fresh[&n[0]] = true
		}
		return n
	case "copy":
		d := args[0].(sliceV)
		if len(d) > 0 {
			if _, isT := d[0].(*Term); !isT {
				e.specStop()
			}
			for i := range d {
				e.logCell(&d[i])
			}
		}
		switch y := args[1].(type) {
		case sliceV:
			n := min(len(d), len(y))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(y[i])
			}
			for i := range tmp {
				d[i] = tmp[i]
			}
			return e.i64(n)
		case *Str:
			bs := e.strBytes(e.flat(y))
			n := min(len(d), len(bs))
			for i := 0; i < n; i++ {
				d[i] = bs[i].t
			}
			return e.i64(n)
		}
	case "delete":
		e.specStop()
		m := args[0].(*mapV)
		if m != nil {
			for i := range m.ents {
				if e.branch(e.eqVal(m.mt.Key(), m.ents[i].k, args[1])) {
					m.ents = append(append([]mapEnt{}, m.ents[:i]...), m.ents[i+1:]...)
					break
				}
			}
		}
		return nil
	case "clear":
		e.specStop()
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				x.ents = nil
			}
			return nil
		case sliceV:
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			for i := range x {
				x[i] = e.zero(el)
			}
			return nil
		}
	case "print", "println":
		return nil
	case "recover":
		e.specStop()
		// the frame that called the deferred function
		fr0 := fr.caller
		if fr0 != nil && fr0.panicking {
			fr0.panicking = false
			tp := fr0.pan.(targetPanic)
			if v, ok := tp.v.(ifaceV); ok {
				return v
			}
			return ifaceV{}
		}
		return ifaceV{}
	case "panic":
		panic(targetPanic{v: args[0], msg: e.panicText(args[0])})
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, y := range args[1:] {
			var lt *Term
			if b.Name() == "min" {
				lt = e.binop(token.LSS, t, t, y, r).(*Term)
			} else {
				lt = e.binop(token.GTR, t, t, y, r).(*Term)
			}
			if rt, ok := r.(*Term); ok && !isFloat(t) {
				r = e.c.Ite(lt, y.(*Term), rt)
			} else if e.branch(lt) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(ptr); ok && p == nil {
			e.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	e.unsupported("builtin " + b.Name())
	return nil
}

func (e *Exec) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(ptr)
		if !ok {
			e.unsupported("load through non-pointer")
		}
		if p == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case token.NOT:
		return e.c.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(in.X.Type()) {
			return e.fneg(t)
		}
		return e.c.Neg(t)
	case token.XOR:
		return e.c.BvNot(x.(*Term))
	}
	e.unsupported("unop " + in.Op.String())
	return nil
}

func (e *Exec) fneg(t *Term) *Term {
	return e.c.Concat(e.c.BvNot(e.c.Extract(t.w-1, t.w-1, t)), e.c.Extract(t.w-2, 0, t))
}

func (e *Exec) fIsNaN(t *Term) *Term {
	m := 52
	if t.w == 32 {
		m = 23
	}
	c := e.c
	return c.And(c.Eq(c.Extract(t.w-2, m, t), c.BV(t.w-1-m, ^uint64(0))), c.Not(c.Eq(c.Extract(m-1, 0, t), c.BV(m, 0))))
}

func (e *Exec) fIsZero(t *Term) *Term {
	return e.c.Eq(e.c.Extract(t.w-2, 0, t), e.c.BV(t.w-1, 0))
}

func (e *Exec) feq(a, b *Term) *Term {
	c := e.c
	nn := c.And(c.Not(e.fIsNaN(a)), c.Not(e.fIsNaN(b)))
	return c.And(nn, c.Or(c.Eq(a, b), c.And(e.fIsZero(a), e.fIsZero(b))))
}

func (e *Exec) flt(a, b *Term) *Term {
	c := e.c
	nn := c.And(c.Not(e.fIsNaN(a)), c.Not(e.fIsNaN(b)))
	sa, sb := c.V2B(c.Extract(a.w-1, a.w-1, a)), c.V2B(c.Extract(b.w-1, b.w-1, b))
	ma, mb := c.Extract(a.w-2, 0, a), c.Extract(b.w-2, 0, b)
	bothZero := c.And(e.fIsZero(a), e.fIsZero(b))
	r := c.Ite(sa, c.Ite(sb, c.Ult(mb, ma), c.Not(bothZero)), c.Ite(sb, c.F, c.Ult(ma, mb)))
	return c.And(nn, r)
}

func (e *Exec) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	c := e.c
	switch op {
	case token.EQL:
		return e.eqVal(tx, x, y)
	case token.NEQ:
		return c.Not(e.eqVal(tx, x, y))
	}
	if s, ok := x.(*Str); ok {
		t := y.(*Str)
		switch op {
		case token.ADD:
			return e.concat(s, t)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if !s.sym && !t.sym {
				switch op {
				case token.LSS:
					return c.Bool(s.lit < t.lit)
				case token.GTR:
					return c.Bool(s.lit > t.lit)
				case token.LEQ:
					return c.Bool(s.lit <= t.lit)
				default:
					return c.Bool(s.lit >= t.lit)
				}
			}
			lt := e.strLess(s, t)
			gt := e.strLess(t, s)
			switch op {
			case token.LSS:
				return lt
			case token.GTR:
				return gt
			case token.LEQ:
				return c.Not(gt)
			default:
				return c.Not(lt)
			}
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		e.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	}
	if isFloat(tx) {
		switch op {
		case token.ADD:
			return c.FOp(OpFAdd, a, b)
		case token.SUB:
			return c.FOp(OpFSub, a, b)
		case token.MUL:
			return c.FOp(OpFMul, a, b)
		case token.QUO:
			return c.FOp(OpFDiv, a, b)
		case token.LSS:
			return e.flt(a, b)
		case token.GTR:
			return e.flt(b, a)
		case token.LEQ:
			return c.Or(e.flt(a, b), e.feq(a, b))
		case token.GEQ:
			return c.Or(e.flt(b, a), e.feq(a, b))
		}
	}
	w, signed, _ := basicInfo(tx)
	if w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		case token.XOR:
			return c.Xor1(a, b)
		}
	}
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if e.branch(c.Eq(b, c.BV(w, 0))) {
			e.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.Sdiv(a, b)
		case op == token.QUO:
			return c.Udiv(a, b)
		case signed:
			return c.Srem(a, b)
		default:
			return c.Urem(a, b)
		}
	case token.AND:
		return c.BvAnd(a, b)
	case token.OR:
		return c.BvOr(a, b)
	case token.XOR:
		return c.BvXor(a, b)
	case token.AND_NOT:
		return c.BvAnd(a, c.BvNot(b))
	case token.SHL, token.SHR:
		wy, sy, _ := basicInfo(ty)
		if sy && !c.nonneg(b) {
			if e.branch(c.Slt(b, c.BV(wy, 0))) {
				e.rtPanic("negative shift amount")
			}
		}
		// bring the amount to the operand width, saturating
		amt := b
		if wy < w {
			amt = c.Zext(b, w)
		} else if wy > w {
			big := c.Not(c.Ult(b, c.BV(wy, uint64(w))))
			amt = c.Ite(big, c.BV(w, uint64(w)), c.Extract(w-1, 0, b))
			if w < 8 && false {
				_ = big
			}
		}
		if op == token.SHL {
			return c.Shl(a, amt)
		}
		if signed {
			return c.Ashr(a, amt)
		}
		return c.Lshr(a, amt)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		lt := c.Ult
		if signed {
			lt = c.Slt
		}
		switch op {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return c.Not(lt(b, a))
		default:
			return c.Not(lt(a, b))
		}
	}
	e.unsupported("binop " + op.String())
	return nil
}

func (e *Exec) strLess(s, t *Str) *Term {
	c := e.c
	a, b := e.strBytes(e.flat(s)), e.strBytes(e.flat(t))
	n := min(len(a), len(b))
	r := c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Ult(a[i].t, b[i].t), c.T, c.Ite(c.Ult(b[i].t, a[i].t), c.F, r))
	}
	return r
}

func (e *Exec) slice(in *ssa.Slice, fr *frame) Value {
	x := fr.get(in.X)
	get := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		t := fr.get(v).(*Term)
		if t.w < 64 {
			if _, s, _ := basicInfo(v.Type()); s {
				t = e.c.Sext(t, 64)
			} else {
				t = e.c.Zext(t, 64)
			}
		}
		return int(sx(e.conc(t), 64))
	}
	switch x := x.(type) {
	case *Str:
		x = e.flat(x)
		n := e.strLen(x)
		lo, hi := get(in.Low, 0), get(in.High, n)
		if lo < 0 || hi < lo || hi > n {
			e.rtPanic("slice bounds out of range")
		}
		if !x.sym {
			return lit(x.lit[lo:hi])
		}
		return e.mkStr(x.b[lo:hi:hi])
	case sliceV:
		lo, hi := get(in.Low, 0), get(in.High, len(x))
		mx := get(in.Max, cap(x))
		if lo < 0 || hi < lo || hi > mx || mx > cap(x) {
			e.rtPanic("slice bounds out of range")
		}
		return x[lo:hi:mx]
	case ptr:
		if x == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(arrayV)
		lo, hi := get(in.Low, 0), get(in.High, len(a))
		mx := get(in.Max, len(a))
		if lo < 0 || hi < lo || hi > mx || mx > len(a) {
			e.rtPanic("slice bounds out of range")
		}
		return sliceV(a[lo:hi:mx])
	}
	e.unsupported("slice")
	return nil
}

func (e *Exec) convert(to, from types.Type, x Value) Value {
	c := e.c
	ut, uf := under(to), under(from)
	if t, ok := x.(*Term); ok {
		wf, sf, _ := basicInfo(from)
		if isString(to) {
			v := e.conc(t)
			return lit(string(rune(sx(v, wf))))
		}
		wt, st, ok2 := basicInfo(to)
		if !ok2 {
			e.unsupported("convert to " + to.String())
		}
		ff, ft := isFloat(from), isFloat(to)
		switch {
		case !ff && !ft:
			if wt == wf {
				return t
			}
			if wt < wf {
				return c.Extract(wt-1, 0, t)
			}
			if sf {
				return c.Sext(t, wt)
			}
			return c.Zext(t, wt)
		case ff && ft:
			if wt == wf {
				return t
			}
			return e.fconv(t, wt)
		case ff && !ft:
			return e.f2i(t, wt, st)
		default:
			return e.i2f(t, wf, sf, wt)
		}
	}
	if s, ok := x.(*Str); ok {
		if isString(to) {
			return s
		}
		if sl, ok := ut.(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				bs := e.strBytes(e.flat(s))
				r := make(sliceV, len(bs))
				for i := range bs {
					r[i] = bs[i].t
				}
				return r
			}
			if !s.sym {
				var r sliceV
				for _, ch := range s.lit {
					r = append(r, c.BV(32, uint64(ch)))
				}
				return r
			}
		}
	}
	if s, ok := x.(sliceV); ok && isString(to) {
		if sl, ok := uf.(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				bs := make([]SByte, len(s))
				for i := range s {
					bs[i] = SByte{t: s[i].(*Term)}
				}
				return e.mkStr(bs)
			}
			var sb strings.Builder
			for _, r := range s {
				t := r.(*Term)
				if !t.isConst() {
					e.unsupported("symbolic rune slice to string")
				}
				sb.WriteRune(rune(t.u))
			}
			return lit(sb.String())
		}
	}
	if p, ok := x.(ptr); ok {
		// pointer <-> unsafe.Pointer: only identity-preserving uses
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return p
		}
		if pt, ok := ut.(*types.Pointer); ok {
			if p == nil {
				return p
			}
			if t, ok := (*p).(*Term); ok {
				if w, _, ok := basicInfo(pt.Elem()); ok && w == t.w {
					return p
				}
			}
		}
		e.unsupported("unsafe pointer conversion")
	}
	e.unsupported(fmt.Sprintf("convert %T %s -> %s", x, from, to))
	return nil
}

var bigOne = big.NewInt(1)
