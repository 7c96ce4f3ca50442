package main

import (
	"math"
	"math/big"
)

// Model assigns constants to variables (keyed by variable name).
type Model map[string]*big.Int

// Rebuild applies t's operator to new arguments through the simplifying constructors.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpNot:
		return c.Not(a[0])
	case OpAnd:
		return c.And(a[0], a[1])
	case OpOr:
		return c.Or(a[0], a[1])
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpUlt:
		return c.Ult(a[0], a[1])
	case OpSlt:
		return c.Slt(a[0], a[1])
	case OpBvNot:
		return c.BvNot(a[0])
	case OpBvAnd:
		return c.BvAnd(a[0], a[1])
	case OpBvOr:
		return c.BvOr(a[0], a[1])
	case OpBvXor:
		return c.BvXor(a[0], a[1])
	case OpAdd:
		return c.Add(a...)
	case OpMul:
		return c.Mul(a[0], a[1])
	case OpUdiv:
		return c.Udiv(a[0], a[1])
	case OpUrem:
		return c.Urem(a[0], a[1])
	case OpSdiv:
		return c.Sdiv(a[0], a[1])
	case OpSrem:
		return c.Srem(a[0], a[1])
	case OpShl:
		return c.Shl(a[0], a[1])
	case OpLshr:
		return c.Lshr(a[0], a[1])
	case OpAshr:
		return c.Ashr(a[0], a[1])
	case OpConcat:
		return c.Concat(a...)
	case OpExtract:
		return c.Extract(int(t.u)+t.w-1, int(t.u), a[0])
	case OpSext:
		return c.Sext(a[0], t.w)
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFSqrt:
		return c.FOp(t.op, a...)
	}
	panic("Rebuild")
}

// FOp builds an IEEE operation on bit patterns; constants are folded natively.
func (c *Ctx) FOp(op Op, args ...*Term) *Term {
	all := true
	for _, a := range args {
		all = all && a.isConst()
	}
	if all {
		w := args[0].w
		if w == 64 {
			x := math.Float64frombits(args[0].u)
			var y float64
			if len(args) > 1 {
				y = math.Float64frombits(args[1].u)
			}
			var r float64
			switch op {
			case OpFAdd:
				r = x + y
			case OpFSub:
				r = x - y
			case OpFMul:
				r = x * y
			case OpFDiv:
				r = x / y
			case OpFSqrt:
				r = math.Sqrt(x)
			}
			return c.BV(64, math.Float64bits(r))
		}
		x := math.Float32frombits(uint32(args[0].u))
		var y float32
		if len(args) > 1 {
			y = math.Float32frombits(uint32(args[1].u))
		}
		var r float32
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		case OpFSqrt:
			r = float32(math.Sqrt(float64(x)))
		}
		return c.BV(32, uint64(math.Float32bits(r)))
	}
	return c.intern(&Term{op: op, w: args[0].w, args: args})
}

// Evaluator computes the constant value of terms under a model.
type Evaluator struct {
	c    *Ctx
	m    Model
	memo map[*Term]*Term
}

func NewEvaluator(c *Ctx, m Model) *Evaluator {
	return &Evaluator{c: c, m: m, memo: map[*Term]*Term{}}
}

func (ev *Evaluator) Eval(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := ev.memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == OpVar {
		r = ev.varVal(t)
	} else if t.op == OpIte {
		if ev.Eval(t.args[0]).isTrue() {
			r = ev.Eval(t.args[1])
		} else {
			r = ev.Eval(t.args[2])
		}
	} else {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = ev.Eval(a)
		}
		r = ev.c.Rebuild(t, args)
	}
	if !r.isConst() {
		panic("eval not constant: " + t.String())
	}
	ev.memo[t] = r
	return r
}

func (ev *Evaluator) varVal(t *Term) *Term {
	v, ok := ev.m[t.name]
	if t.w == 0 {
		return ev.c.Bool(ok && v.Sign() != 0)
	}
	if !ok {
		if lo, _, ranged := t.rng(); ranged {
			return ev.c.BVi(t.w, lo)
		}
		return ev.c.BV(t.w, 0)
	}
	return ev.c.BVBig(t.w, v)
}
