package main

// Intrinsics for the harness interface package vsym.

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) cstr(v Value) string {
	s, ok := v.(*Str)
	if !ok || s.sym {
		e.unsupported("harness: constant string expected")
	}
	return s.lit
}

func (e *Exec) cint(v Value) int { return int(sx(e.conc(v.(*Term)), 64)) }

func (e *Exec) wterm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		e.unsupported("harness: wide value expected")
	}
	return t
}

// setOutcome splits the check at a function that reports success as a bool.
// Succeeds: only the paths where it returns true are followed. Fails: it returns
// false, whatever its arguments, and does nothing else; this covers every path
// where it really fails, and more. A counterexample is replayed on the real code.
func (e *Exec) setOutcome(fn string, ok bool) {
	if e.outcome == nil {
		e.outcome = map[string]bool{}
	}
	e.outcome[fn] = ok
}

func boolResult(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := r.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (e *Exec) record(name string, t *Term) { e.inputs = append(e.inputs, input{name, t}) }

func (e *Exec) uniqIn(name string) string { return e.uniq(name) }

// symParams gives symbolic sign, precision, mode and accuracy.
func (e *Exec) symParams(name string, zeroPrec bool) *BF {
	c := e.c
	z := e.newBF()
	z.neg = e.newVar(name+".s", 0, false, 0, 0)
	z.prec = e.newVar(name+".p", 32, false, 0, 0)
	z.mode = e.newVar(name+".r", 8, true, 0, 5)
	z.acc = e.newVar(name+".a", 8, true, -1, 1)
	if !zeroPrec {
		e.assume(c.Not(c.Eq(z.prec, c.BV(32, 0))))
	}
	return z
}

func (e *Exec) symMant(name string, bits int) *Term {
	n := e.uniq(name + ".m")
	m := e.c.BV(1, 1)
	if bits > 1 {
		m = e.c.Concat(e.c.BV(1, 1), e.c.Var(n, bits-1))
	}
	e.record(n, m)
	return m
}

// fitsPrec: the mantissa has no one bits beyond prec.
func (e *Exec) fitsPrec(m, prec *Term) *Term {
	c := e.c
	W := m.w
	if prec.umin >= uint64(W) {
		return c.T
	}
	if prec.isConst() {
		return e.wz(c.Extract(W-int(prec.u)-1, 0, m))
	}
	sat := c.Ite(c.Ult(prec, c.BV(32, uint64(W))), prec, c.BV(32, uint64(W)))
	w := W
	mm := m
	if w < 32 {
		w = 32
		mm = c.Zext(m, 32)
		// shift left within W bits
		sh := c.Shl(mm, sat)
		return e.wz(c.Extract(W-1, 0, sh))
	}
	return e.wz(c.Shl(mm, c.Zext(sat, w)))
}

func (e *Exec) registerVsym(in map[string]intrinsic) {
	pre := "github.com/mewmew/float/zzverif/vsym."
	reg := func(name string, f func(e *Exec, a []Value) Value) {
		in[pre+name] = func(e *Exec, fn *ssa.Function, a []Value) Value { return f(e, a) }
	}
	meth := func(name string, f func(e *Exec, x *Term, a []Value) Value) {
		k := "(*" + strings.TrimSuffix(pre, ".") + ".wide)." + name
		in[k] = func(e *Exec, fn *ssa.Function, a []Value) Value { return f(e, e.wterm(a[0]), a) }
	}
	for n, w := range map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "Bool": 0} {
		w := w
		reg(n, func(e *Exec, a []Value) Value { return e.newVar(e.cstr(a[0]), w, false, 0, 0) })
	}
	reg("Int", func(e *Exec, a []Value) Value {
		lo, hi := e.cint(a[1]), e.cint(a[2])
		if lo == hi {
			t := e.c.BVi(64, int64(lo))
			e.record(e.uniq(e.cstr(a[0])), t)
			return t
		}
		if lo > hi {
			panic(pathStop{"infeasible", ""})
		}
		return e.newVar(e.cstr(a[0]), 64, true, int64(lo), int64(hi))
	})
	reg("Choose", func(e *Exec, a []Value) Value {
		lo, hi := e.cint(a[1]), e.cint(a[2])
		if lo > hi {
			panic(pathStop{"infeasible", ""})
		}
		t := e.c.BVi(64, int64(e.choose(lo, hi)))
		e.record(e.uniq(e.cstr(a[0])), t)
		return t
	})
	reg("Pick", func(e *Exec, a []Value) Value {
		s := a[1].(sliceV)
		k := e.choose(0, len(s)-1)
		t := s[k].(*Term)
		e.record(e.uniq(e.cstr(a[0])), t)
		return t
	})
	reg("Wide", func(e *Exec, a []Value) Value { return e.newVar(e.cstr(a[0]), e.cint(a[1]), false, 0, 0) })
	reg("Fails", func(e *Exec, a []Value) Value { e.setOutcome(e.cstr(a[0]), false); return nil })
	reg("Succeeds", func(e *Exec, a []Value) Value { e.setOutcome(e.cstr(a[0]), true); return nil })
	reg("Linear", func(e *Exec, a []Value) Value { e.linearMode = true; return nil })
	reg("Thorough", func(e *Exec, a []Value) Value { return e.c.Bool(e.eng.tier > 0) })
	reg("Assume", func(e *Exec, a []Value) Value { e.assume(a[0].(*Term)); return nil })
	reg("Assert", func(e *Exec, a []Value) Value { e.assert(a[0].(*Term), e.cstr(a[1])); return nil })
	reg("Reach", func(e *Exec, a []Value) Value { e.reached[e.cstr(a[0])] = true; return nil })
	reg("Obs", func(e *Exec, a []Value) Value { e.obs = append(e.obs, obsRec{e.cstr(a[0]), a[1].(*Term)}); return nil })
	in[pre+"ObsB"] = in[pre+"Obs"]
	reg("ObsF", func(e *Exec, a []Value) Value {
		n := e.cstr(a[0])
		x := e.bf(a[1])
		c := e.c
		o := func(s string, t *Term) { e.obs = append(e.obs, obsRec{n + "." + s, t}) }
		o("form", c.BV(8, uint64(x.form)))
		o("neg", x.neg)
		o("prec", x.prec)
		o("mode", x.mode)
		o("acc", x.acc)
		if x.form == bfFinite {
			o("exp", x.exp)
			o("mant", e.top(x.mant, 256))
		}
		return nil
	})
	reg("And", func(e *Exec, a []Value) Value {
		r := e.c.T
		for _, x := range a[0].(sliceV) {
			r = e.c.And(r, x.(*Term))
		}
		return r
	})
	reg("Or", func(e *Exec, a []Value) Value {
		r := e.c.F
		for _, x := range a[0].(sliceV) {
			r = e.c.Or(r, x.(*Term))
		}
		return r
	})
	reg("Not", func(e *Exec, a []Value) Value { return e.c.Not(a[0].(*Term)) })
	reg("Implies", func(e *Exec, a []Value) Value { return e.c.Or(e.c.Not(a[0].(*Term)), a[1].(*Term)) })
	reg("Iff", func(e *Exec, a []Value) Value { return e.c.Eq(a[0].(*Term), a[1].(*Term)) })
	ite := func(e *Exec, a []Value) Value { return e.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }
	reg("IteI", ite)
	reg("IteW", ite)
	reg("Cut", func(e *Exec, a []Value) Value { return e.c.Bool(e.branch(a[0].(*Term))) })
	fit := func(e *Exec, t *Term, w int) *Term {
		if w < t.w {
			return e.c.Extract(w-1, 0, t)
		}
		return e.c.Zext(t, w)
	}
	reg("WU", func(e *Exec, a []Value) Value { return fit(e, a[1].(*Term), e.cint(a[0])) })
	reg("WPow", func(e *Exec, a []Value) Value {
		w, n := e.cint(a[0]), e.cint(a[1])
		if n >= w {
			return e.c.BVBig(w, new(big.Int))
		}
		return e.c.BVBig(w, new(big.Int).Lsh(bigOne, uint(n)))
	})
	meth("Width", func(e *Exec, x *Term, a []Value) Value { return e.i64(x.w) })
	meth("U", func(e *Exec, x *Term, a []Value) Value { return fit(e, x, 64) })
	meth("Zext", func(e *Exec, x *Term, a []Value) Value { return fit(e, x, e.cint(a[1])) })
	meth("Bit", func(e *Exec, x *Term, a []Value) Value {
		i := e.cint(a[1])
		if i >= x.w {
			return e.c.F
		}
		return e.c.V2B(e.c.Extract(i, i, x))
	})
	meth("Extract", func(e *Exec, x *Term, a []Value) Value {
		hi, lo := e.cint(a[1]), e.cint(a[2])
		return e.c.Extract(hi, lo, x)
	})
	meth("Concat", func(e *Exec, x *Term, a []Value) Value { return e.c.Concat(x, e.wterm(a[1])) })
	bin := func(n string, f func(e *Exec, x, y *Term) Value) {
		meth(n, func(e *Exec, x *Term, a []Value) Value {
			y := e.wterm(a[1])
			if x.w != y.w {
				e.unsupported("harness: width mismatch")
			}
			return f(e, x, y)
		})
	}
	bin("Add", func(e *Exec, x, y *Term) Value { return e.c.Add(x, y) })
	bin("Sub", func(e *Exec, x, y *Term) Value { return e.c.Sub(x, y) })
	bin("Mul", func(e *Exec, x, y *Term) Value { return e.c.Mul(x, y) })
	bin("And", func(e *Exec, x, y *Term) Value { return e.c.BvAnd(x, y) })
	bin("Eq", func(e *Exec, x, y *Term) Value { return e.c.Eq(x, y) })
	bin("Ult", func(e *Exec, x, y *Term) Value { return e.c.Ult(x, y) })
	bin("Ule", func(e *Exec, x, y *Term) Value { return e.c.Ule(x, y) })
	meth("Shl", func(e *Exec, x *Term, a []Value) Value {
		n := e.cint(a[1])
		if n >= x.w {
			return e.c.BVBig(x.w, new(big.Int))
		}
		return e.c.ShlC(x, n)
	})
	meth("Shr", func(e *Exec, x *Term, a []Value) Value {
		n := e.cint(a[1])
		if n >= x.w {
			return e.c.BVBig(x.w, new(big.Int))
		}
		return e.c.LshrC(x, n)
	})
	meth("IsZero", func(e *Exec, x *Term, a []Value) Value { return e.wz(x) })
	meth("AnyLow", func(e *Exec, x *Term, a []Value) Value {
		n := min(e.cint(a[1]), x.w)
		if n <= 0 {
			return e.c.F
		}
		return e.c.Not(e.wz(e.c.Extract(n-1, 0, x)))
	})
	meth("Clz", func(e *Exec, x *Term, a []Value) Value { return e.i64(e.clz(x)) })

	// big.Float
	reg("Mant", func(e *Exec, a []Value) Value {
		x := e.bf(a[0])
		if x.form != bfFinite {
			e.unsupported("harness: Mant of a non-finite value")
		}
		return e.top(x.mant, e.cint(a[1]))
	})
	reg("MantFits", func(e *Exec, a []Value) Value {
		x := e.bf(a[0])
		if x.form != bfFinite {
			return e.c.T
		}
		return e.fitsBits(x, e.cint(a[1]))
	})
	reg("Fixed", func(e *Exec, a []Value) Value {
		c := e.c
		x := e.bf(a[0])
		lsb, w := e.cint(a[1]), e.cint(a[2])
		z := c.BVBig(w, new(big.Int))
		switch x.form {
		case bfInf:
			return tupleV{z, c.F}
		case bfZero:
			return tupleV{z, c.T}
		}
		n := c.Sub(x.exp, c.BVi(64, int64(lsb)))
		if !e.branch(c.And(c.Slt(c.BV(64, 0), n), c.Sle(n, c.BVi(64, int64(w))))) {
			return tupleV{z, c.F}
		}
		k := int(sx(e.conc(n), 64))
		return tupleV{c.Zext(e.top(e.trim(x.mant), k), w), e.fitsBits(x, k)}
	})
	reg("SetAcc", func(e *Exec, a []Value) Value { e.bf(a[0]).acc = a[1].(*Term); return nil })
	reg("Float", func(e *Exec, a []Value) Value {
		n, bits, exp := e.cstr(a[0]), e.cint(a[1]), a[2].(*Term)
		m := e.symMant(n, bits)
		z := e.symParams(n, false)
		e.assume(e.fitsPrec(m, z.prec))
		z.form, z.mant, z.exp = bfFinite, m, exp
		return e.newBFPtr(z)
	})
	reg("FloatP", func(e *Exec, a []Value) Value {
		c := e.c
		n, bits, exp := e.cstr(a[0]), e.cint(a[1]), a[2].(*Term)
		m := e.symMant(n, bits)
		z := e.newBF()
		z.neg = e.newVar(n+".s", 0, false, 0, 0)
		z.prec = c.Extract(31, 0, a[3].(*Term))
		z.mode = a[4].(*Term)
		e.assume(e.fitsPrec(m, z.prec))
		z.form, z.mant, z.exp = bfFinite, m, exp
		return e.newBFPtr(z)
	})
	reg("Special", func(e *Exec, a []Value) Value {
		z := e.symParams(e.cstr(a[0]), true)
		if a[1].(*Term).isTrue() {
			z.form = bfInf
		}
		return e.newBFPtr(z)
	})
	reg("SameFloat", func(e *Exec, a []Value) Value {
		c := e.c
		x, y := e.bf(a[0]), e.bf(a[1])
		if x.form != y.form {
			return c.F
		}
		r := c.And(c.And(c.Eq(x.neg, y.neg), c.Eq(x.prec, y.prec)), c.And(c.Eq(x.mode, y.mode), c.Eq(x.acc, y.acc)))
		if x.form == bfFinite {
			_, eq := e.ucmp(x, y)
			r = c.And(r, eq)
		}
		return r
	})
	reg("Clone", func(e *Exec, a []Value) Value { return e.newBFPtr(e.bf(a[0]).clone()) })
}
