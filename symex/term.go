package main

// Hash-consed bit-vector / boolean term DAG with a word-level simplifier.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpIte
	OpEq
	OpUlt
	OpSlt
	OpBvNot
	OpBvAnd
	OpBvOr
	OpBvXor
	OpAdd // n-ary
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpShl
	OpLshr
	OpAshr
	OpConcat // n-ary, most significant first
	OpExtract
	OpSext
	// IEEE operations on bit patterns (w = 32 or 64)
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFSqrt
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt",
	OpBvNot: "bvnot", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor", OpAdd: "bvadd", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem",
	OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat"}

// Term is an immutable node. w == 0 means boolean.
type Term struct {
	op         Op
	w          int
	args       []*Term
	u          uint64   // const value (w<=64), extract lo
	b          *big.Int // const value (w>64)
	name       string   // var
	ranged     bool     // var declared with a signed range
	rlo, rhi   int64
	id         int
	umin, umax uint64 // valid for 1<=w<=64
	smin, smax int64  // valid for 1<=w<=64 (sign-extended)
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.u == 0 }

func (t *Term) big() *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(t.u)
	}
	return t.b
}

// s64 gives the signed value of a constant with w<=64.
func (t *Term) s64() int64 { return sx(t.u, t.w) }

func sx(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	return int64(u<<(64-uint(w))) >> (64 - uint(w))
}

func maskOf(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

type Ctx struct {
	tab  map[uint64][]*Term
	n    int
	T, F *Term
	vars map[string]*Term
	// lowOf: terms whose low bits are this one, where Extract was pushed inwards
	lowOf map[*Term][]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}, vars: map[string]*Term{}, lowOf: map[*Term][]*Term{}}
	c.F = c.intern(&Term{op: OpConst, w: 0, u: 0})
	c.T = c.intern(&Term{op: OpConst, w: 0, u: 1})
	return c
}

func hashTerm(t *Term) uint64 {
	h := uint64(t.op)*0x9E3779B97F4A7C15 + uint64(t.w)*0xC2B2AE3D27D4EB4F + t.u*0x165667B19E3779F9
	for _, a := range t.args {
		h = (h ^ uint64(a.id)) * 0xff51afd7ed558ccd
		h ^= h >> 29
	}
	if t.b != nil {
		for _, w := range t.b.Bits() {
			h = (h ^ uint64(w)) * 0xff51afd7ed558ccd
			h ^= h >> 31
		}
	}
	for i := 0; i < len(t.name); i++ {
		h = (h ^ uint64(t.name[i])) * 0x100000001b3
	}
	return h
}

func sameTerm(a, b *Term) bool {
	if a.op != b.op || a.w != b.w || a.u != b.u || len(a.args) != len(b.args) || a.name != b.name {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	if (a.b == nil) != (b.b == nil) {
		return false
	}
	return a.b == nil || a.b.Cmp(b.b) == 0
}

func (c *Ctx) intern(t *Term) *Term {
	h := hashTerm(t)
	for _, x := range c.tab[h] {
		if sameTerm(x, t) {
			return x
		}
	}
	t.id = c.n
	c.n++
	c.tab[h] = append(c.tab[h], t)
	if t.w >= 1 && t.w <= 64 {
		t.interval()
	}
	return t
}

// ---- intervals

func (t *Term) setU(lo, hi uint64) {
	t.umin, t.umax = lo, hi
}

func (t *Term) interval() {
	m := maskOf(t.w)
	t.umin, t.umax = 0, m
	smn, smx := int64(-1)<<(uint(t.w)-1), int64(uint64(1)<<(uint(t.w)-1)-1)
	t.smin, t.smax = smn, smx
	a := t.args
	switch t.op {
	case OpConst:
		t.umin, t.umax = t.u, t.u
		t.smin, t.smax = t.s64(), t.s64()
		return
	case OpIte:
		t.umin, t.umax = min(a[1].umin, a[2].umin), max(a[1].umax, a[2].umax)
		t.smin, t.smax = min(a[1].smin, a[2].smin), max(a[1].smax, a[2].smax)
	case OpConcat:
		// upper part constant or bounded
		var lo, hi uint64
		for _, p := range a {
			lo = lo<<uint(p.w) | p.umin
			hi = hi<<uint(p.w) | p.umax
		}
		t.umin, t.umax = lo, hi
	case OpExtract:
		lo := int(t.u)
		x := a[0]
		if x.w <= 64 {
			sh := x.umax >> uint(lo)
			if sh <= m {
				t.umin, t.umax = x.umin>>uint(lo), sh
			}
		}
	case OpSext:
		t.smin, t.smax = a[0].smin, a[0].smax
		if t.smin >= 0 {
			t.umin, t.umax = uint64(t.smin), uint64(t.smax)
		}
	case OpAdd:
		// unsigned
		var lo, hi, carryLo, carryHi uint64
		var slo, shi int64
		sok := true
		for i, p := range a {
			if i == 0 {
				lo, hi, slo, shi = p.umin, p.umax, p.smin, p.smax
				continue
			}
			var c1 uint64
			lo, c1 = bits.Add64(lo, p.umin, 0)
			carryLo += c1
			hi, c1 = bits.Add64(hi, p.umax, 0)
			carryHi += c1
			n1, n2 := slo+p.smin, shi+p.smax
			if (p.smin < 0) == (slo < 0) && (n1 < 0) != (slo < 0) {
				sok = false
			}
			if (p.smax < 0) == (shi < 0) && (n2 < 0) != (shi < 0) {
				sok = false
			}
			slo, shi = n1, n2
		}
		if t.w < 64 {
			carryLo = carryLo<<(64-uint(t.w)) | lo>>uint(t.w)
			carryHi = carryHi<<(64-uint(t.w)) | hi>>uint(t.w)
		}
		if carryLo == carryHi && lo&m <= hi&m {
			t.umin, t.umax = lo&m, hi&m
		}
		if sok && slo >= smn && shi <= smx {
			t.smin, t.smax = slo, shi
		}
	case OpMul:
		h, l := bits.Mul64(a[0].umax, a[1].umax)
		if h == 0 && l <= m {
			t.umin, t.umax = a[0].umin*a[1].umin, l
		}
		if a[0].isConst() && t.w <= 64 {
			k := big.NewInt(a[0].s64())
			x := new(big.Int).Mul(k, big.NewInt(a[1].smin))
			y := new(big.Int).Mul(k, big.NewInt(a[1].smax))
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			if x.Cmp(big.NewInt(smn)) >= 0 && y.Cmp(big.NewInt(smx)) <= 0 {
				t.smin, t.smax = x.Int64(), y.Int64()
			}
		}
	case OpUdiv:
		if a[1].umin > 0 {
			t.umin, t.umax = a[0].umin/a[1].umax, a[0].umax/a[1].umin
		}
	case OpUrem:
		if a[1].umax > 0 && a[1].umin > 0 {
			t.umax = min(a[1].umax-1, a[0].umax)
		}
	case OpBvAnd:
		t.umax = min(a[0].umax, a[1].umax)
	case OpBvOr:
		t.umin = max(a[0].umin, a[1].umin)
		n := bits.Len64(a[0].umax | a[1].umax)
		t.umax = maskOf(n)
		if n == 0 {
			t.umax = 0
		}
	case OpBvXor:
		n := bits.Len64(a[0].umax | a[1].umax)
		t.umax = maskOf(n)
		if n == 0 {
			t.umax = 0
		}
	case OpLshr:
		t.umax = a[0].umax
		if a[1].umin < 64 {
			t.umax = a[0].umax >> a[1].umin
		} else {
			t.umax = 0
		}
	case OpAshr:
		t.smin, t.smax = min(a[0].smin, 0), max(a[0].smax, 0)
	case OpBvNot:
		t.umin, t.umax = ^a[0].umax&m, ^a[0].umin&m
	}
	// refine one from the other
	half := uint64(1) << (uint(t.w) - 1)
	if t.umax < half {
		t.smin, t.smax = max(t.smin, int64(t.umin)), min(t.smax, int64(t.umax))
	} else if t.umin >= half {
		t.smin, t.smax = max(t.smin, sx(t.umin, t.w)), min(t.smax, sx(t.umax, t.w))
	}
	if t.smin >= 0 {
		t.umin, t.umax = max(t.umin, uint64(t.smin)), min(t.umax, uint64(t.smax))
	} else if t.smax < 0 {
		t.umin, t.umax = max(t.umin, uint64(t.smin)&m), min(t.umax, uint64(t.smax)&m)
	}
}

// ---- constructors

func (c *Ctx) Bool(v bool) *Term {
	if v {
		return c.T
	}
	return c.F
}

func (c *Ctx) BV(w int, v uint64) *Term {
	if w <= 0 {
		panic("BV width")
	}
	if w > 64 {
		return c.BVBig(w, new(big.Int).SetUint64(v))
	}
	return c.intern(&Term{op: OpConst, w: w, u: v & maskOf(w)})
}

func (c *Ctx) BVi(w int, v int64) *Term {
	if w > 64 {
		return c.BVBig(w, big.NewInt(v))
	}
	return c.BV(w, uint64(v))
}

func (c *Ctx) BVBig(w int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	m.Sub(m, big.NewInt(1))
	x := new(big.Int).And(v, m)
	if w <= 64 {
		return c.BV(w, x.Uint64())
	}
	return c.intern(&Term{op: OpConst, w: w, b: x})
}

func (c *Ctx) Var(name string, w int) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("var width clash " + name)
		}
		return t
	}
	t := c.intern(&Term{op: OpVar, w: w, name: name})
	c.vars[name] = t
	return t
}

// VarRange declares a variable confined to a signed range; the printer asserts
// the range in every query that mentions the variable.
func (c *Ctx) VarRange(name string, w int, lo, hi int64) *Term {
	if t, ok := c.vars[name]; ok {
		return t
	}
	t := c.intern(&Term{op: OpVar, w: w, name: name})
	t.ranged, t.rlo, t.rhi = true, lo, hi
	t.smin, t.smax = lo, hi
	if lo >= 0 {
		t.umin, t.umax = uint64(lo), uint64(hi)
	} else if hi < 0 {
		t.umin, t.umax = uint64(lo)&maskOf(w), uint64(hi)&maskOf(w)
	}
	c.vars[name] = t
	return t
}

func (t *Term) rng() (lo, hi int64, ok bool) { return t.rlo, t.rhi, t.ranged }

func (c *Ctx) Not(a *Term) *Term {
	if a.w != 0 {
		panic("Not on bv")
	}
	if a.isConst() {
		return c.Bool(a.u == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return c.intern(&Term{op: OpNot, args: []*Term{a}})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpAnd, args: []*Term{a, b}})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpOr, args: []*Term{a, b}})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.w == 1 && a.isConst() && b.isConst() && cond.op == OpEq && cond.args[0].w == 1 {
		// ite(v == k, 1, 0) is v or its complement
		v, k := cond.args[0], cond.args[1]
		if v.isConst() {
			v, k = k, v
		}
		if k.isConst() {
			if k.u == a.u {
				return v
			}
			return c.BvNot(v)
		}
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.intern(&Term{op: OpIte, w: a.w, args: []*Term{cond, a, b}})
}

func (c *Ctx) Xor1(a, b *Term) *Term { // boolean xor
	return c.Ite(a, c.Not(b), b)
}

// bit as BV1
func (c *Ctx) B2V(b *Term) *Term { return c.Ite(b, c.BV(1, 1), c.BV(1, 0)) }

// BV1 -> bool
func (c *Ctx) V2B(v *Term) *Term { return c.Eq(v, c.BV(1, 1)) }

func bothConst(a, b *Term) bool { return a.isConst() && b.isConst() }

// segs splits bit positions: returns boundaries (lsb positions) where t changes segment.
func segBounds(t *Term, set map[int]bool) {
	if t.op == OpConcat {
		pos := 0
		for i := len(t.args) - 1; i >= 0; i-- {
			pos += t.args[i].w
			if pos < t.w {
				set[pos] = true
			}
		}
	}
}

func constRuns(t *Term, limit int) []int {
	v := t.big()
	var r []int
	prev := v.Bit(0)
	for i := 1; i < t.w; i++ {
		b := v.Bit(i)
		if b != prev {
			r = append(r, i)
			prev = b
			if len(r) > limit {
				return nil
			}
		}
	}
	return r
}

func hasConstSeg(t *Term) bool {
	if t.op != OpConcat {
		return false
	}
	for _, a := range t.args {
		if a.isConst() {
			return true
		}
	}
	return false
}

// splitPositions decides whether a bitwise op should be performed segment-wise.
func splitPositions(a, b *Term) []int {
	set := map[int]bool{}
	if a.isConst() || b.isConst() {
		k, o := a, b
		if b.isConst() {
			k, o = b, a
		}
		runs := constRuns(k, 12)
		if runs == nil && !(k.w > 1 && isAllSame(k)) {
			if k.w == 1 {
				return nil
			}
			if len(runs) == 0 {
				return nil
			}
		}
		for _, r := range runs {
			set[r] = true
		}
		segBounds(o, set)
	} else {
		if !hasConstSeg(a) && !hasConstSeg(b) {
			if a.op == OpConcat && b.op == OpConcat {
				sa, sb := map[int]bool{}, map[int]bool{}
				segBounds(a, sa)
				segBounds(b, sb)
				if len(sa) != len(sb) {
					return nil
				}
				for k := range sa {
					if !sb[k] {
						return nil
					}
				}
				set = sa
			} else {
				return nil
			}
		} else {
			segBounds(a, set)
			segBounds(b, set)
		}
	}
	if len(set) == 0 {
		return nil
	}
	var r []int
	for k := range set {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func isAllSame(t *Term) bool {
	v := t.big()
	return v.Sign() == 0 || v.BitLen() == t.w && new(big.Int).Add(v, big.NewInt(1)).BitLen() == t.w+1
}

func (c *Ctx) segwise(a, b *Term, pos []int, f func(x, y *Term) *Term) *Term {
	var parts []*Term
	lo := 0
	pos = append(pos, a.w)
	for _, p := range pos {
		parts = append(parts, f(c.Extract(p-1, lo, a), c.Extract(p-1, lo, b)))
		lo = p
	}
	// reverse
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return c.Concat(parts...)
}

func isZero(t *Term) bool {
	if !t.isConst() {
		return false
	}
	if t.w <= 64 {
		return t.u == 0
	}
	return t.b.Sign() == 0
}

func isOnes(t *Term) bool {
	if !t.isConst() {
		return false
	}
	if t.w <= 64 {
		return t.u == maskOf(t.w)
	}
	return t.b.BitLen() == t.w && isAllSame(t)
}

func chk(a, b *Term, op string) {
	if a.w != b.w || a.w == 0 {
		panic(fmt.Sprintf("%s width %d %d", op, a.w, b.w))
	}
}

func (c *Ctx) BvAnd(a, b *Term) *Term {
	chk(a, b, "and")
	if bothConst(a, b) {
		if a.w <= 64 {
			return c.BV(a.w, a.u&b.u)
		}
		return c.BVBig(a.w, new(big.Int).And(a.b, b.b))
	}
	if a == b {
		return a
	}
	if isZero(a) || isOnes(b) {
		return a
	}
	if isZero(b) || isOnes(a) {
		return b
	}
	if pos := splitPositions(a, b); pos != nil {
		return c.segwise(a, b, pos, c.BvAnd)
	}
	if t := c.pushIte2(a, b, c.BvAnd); t != nil {
		return t
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpBvAnd, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) BvOr(a, b *Term) *Term {
	chk(a, b, "or")
	if bothConst(a, b) {
		if a.w <= 64 {
			return c.BV(a.w, a.u|b.u)
		}
		return c.BVBig(a.w, new(big.Int).Or(a.b, b.b))
	}
	if a == b {
		return a
	}
	if isZero(a) || isOnes(b) {
		return b
	}
	if isZero(b) || isOnes(a) {
		return a
	}
	if pos := splitPositions(a, b); pos != nil {
		return c.segwise(a, b, pos, c.BvOr)
	}
	if t := c.pushIte2(a, b, c.BvOr); t != nil {
		return t
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpBvOr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) BvXor(a, b *Term) *Term {
	chk(a, b, "xor")
	if bothConst(a, b) {
		if a.w <= 64 {
			return c.BV(a.w, a.u^b.u)
		}
		return c.BVBig(a.w, new(big.Int).Xor(a.b, b.b))
	}
	if a == b {
		return c.BV(a.w, 0)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if isOnes(a) {
		return c.BvNot(b)
	}
	if isOnes(b) {
		return c.BvNot(a)
	}
	if pos := splitPositions(a, b); pos != nil {
		return c.segwise(a, b, pos, c.BvXor)
	}
	if t := c.pushIte2(a, b, c.BvXor); t != nil {
		return t
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpBvXor, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) BvNot(a *Term) *Term {
	if a.isConst() {
		if a.w <= 64 {
			return c.BV(a.w, ^a.u)
		}
		return c.BVBig(a.w, new(big.Int).Not(a.b))
	}
	if a.op == OpBvNot {
		return a.args[0]
	}
	if a.op == OpConcat {
		var ps []*Term
		for _, p := range a.args {
			ps = append(ps, c.BvNot(p))
		}
		return c.Concat(ps...)
	}
	if a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.BvNot(a.args[1]), c.BvNot(a.args[2]))
	}
	return c.intern(&Term{op: OpBvNot, w: a.w, args: []*Term{a}})
}

// pushIte2 distributes a binary op over an ite with constant branches when the
// other operand is constant too (or is an ite on the same condition).
func (c *Ctx) pushIte2(a, b *Term, f func(x, y *Term) *Term) *Term {
	if a.op == OpIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OpIte && a.isConst() && b.args[1].isConst() && b.args[2].isConst() {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] && a.args[1].isConst() && a.args[2].isConst() && b.args[1].isConst() && b.args[2].isConst() {
		return c.Ite(a.args[0], f(a.args[1], b.args[1]), f(a.args[2], b.args[2]))
	}
	return nil
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	var flat []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == OpConcat {
			for _, q := range p.args {
				add(q)
			}
			return
		}
		if n := len(flat); n > 0 {
			l := flat[n-1]
			if l.isConst() && p.isConst() {
				v := new(big.Int).Lsh(l.big(), uint(p.w))
				v.Or(v, p.big())
				flat[n-1] = c.BVBig(l.w+p.w, v)
				return
			}
			if l.op == OpExtract && p.op == OpExtract && l.args[0] == p.args[0] && int(l.u) == int(p.u)+p.w {
				m := c.Extract(int(l.u)+l.w-1, int(p.u), p.args[0])
				flat[n-1] = m
				return
			}
			if l.op == OpIte && p.op == OpIte && l.args[0] == p.args[0] &&
				(l.args[1].isConst() && p.args[1].isConst() || l.args[2].isConst() && p.args[2].isConst()) {
				flat[n-1] = c.Ite(l.args[0], c.Concat(l.args[1], p.args[1]), c.Concat(l.args[2], p.args[2]))
				return
			}
		}
		// the leading bits of t are known: const ++ low bits of t is t
		if n := len(flat); n == 1 && flat[0].isConst() && p.w < 64 {
			ts := c.lowOf[p]
			if p.op == OpExtract && p.u == 0 {
				ts = p.args
			}
			for _, t := range ts {
				m := t.w - p.w
				if t.w > 64 || m > flat[0].w || flat[0].w > 64 || t.umax>>uint(p.w) != t.umin>>uint(p.w) || flat[0].u&maskOf(m) != t.umin>>uint(p.w) {
					continue
				}
				if m == flat[0].w {
					flat[0] = t
				} else {
					flat = []*Term{c.BV(flat[0].w-m, flat[0].u>>uint(m)), t}
				}
				return
			}
		}
		flat = append(flat, p)
	}
	for _, p := range parts {
		if p != nil {
			add(p)
		}
	}
	if len(flat) == 1 {
		return flat[0]
	}
	w := 0
	for _, p := range flat {
		w += p.w
	}
	return c.intern(&Term{op: OpConcat, w: w, args: flat})
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		panic("zext narrower")
	}
	// zext(extract(k-1,0)(x)) == x when x is known to fit
	if t.op == OpExtract && t.u == 0 && t.args[0].w == w && w <= 64 && t.args[0].umax <= maskOf(t.w) {
		return t.args[0]
	}
	return c.Concat(c.BV(w-t.w, 0), t)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		panic("sext narrower")
	}
	if t.isConst() {
		v := t.big()
		if v.Bit(t.w-1) == 1 {
			v = new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return c.BVBig(w, v)
	}
	if t.op == OpConcat && isZero(t.args[0]) {
		return c.Zext(t, w)
	}
	if t.w <= 64 && t.smin >= 0 {
		return c.Zext(t, w)
	}
	if t.op == OpExtract && t.u == 0 && t.args[0].w == w && w <= 64 {
		x := t.args[0]
		lo, hi := int64(-1)<<(uint(t.w)-1), int64(uint64(1)<<(uint(t.w)-1)-1)
		if x.smin >= lo && x.smax <= hi {
			return x
		}
	}
	if t.op == OpIte && t.args[1].isConst() && t.args[2].isConst() {
		return c.Ite(t.args[0], c.Sext(t.args[1], w), c.Sext(t.args[2], w))
	}
	return c.intern(&Term{op: OpSext, w: w, args: []*Term{t}})
}

func (c *Ctx) Extract(hi, lo int, t *Term) *Term {
	w := hi - lo + 1
	if w <= 0 || lo < 0 || hi >= t.w {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, t.w))
	}
	if w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return c.BVBig(w, new(big.Int).Rsh(t.big(), uint(lo)))
	case OpExtract:
		return c.Extract(hi+int(t.u), lo+int(t.u), t.args[0])
	case OpConcat:
		pos := t.w
		var parts []*Term
		for _, p := range t.args {
			pos -= p.w
			l, h := max(lo, pos), min(hi, pos+p.w-1)
			if l <= h {
				parts = append(parts, c.Extract(h-pos, l-pos, p))
			}
		}
		return c.Concat(parts...)
	case OpBvNot:
		return c.BvNot(c.Extract(hi, lo, t.args[0]))
	case OpBvAnd:
		return c.BvAnd(c.Extract(hi, lo, t.args[0]), c.Extract(hi, lo, t.args[1]))
	case OpBvOr:
		return c.BvOr(c.Extract(hi, lo, t.args[0]), c.Extract(hi, lo, t.args[1]))
	case OpBvXor:
		return c.BvXor(c.Extract(hi, lo, t.args[0]), c.Extract(hi, lo, t.args[1]))
	case OpIte:
		return c.Ite(t.args[0], c.Extract(hi, lo, t.args[1]), c.Extract(hi, lo, t.args[2]))
	case OpSext:
		in := t.args[0]
		if hi < in.w {
			return c.Extract(hi, lo, in)
		}
		if lo == 0 {
			return c.Sext(in, w)
		}
		if lo >= in.w-1 {
			return c.Sext(c.Extract(in.w-1, in.w-1, in), w)
		}
	case OpAdd:
		if lo == 0 {
			var as []*Term
			for _, a := range t.args {
				as = append(as, c.Extract(hi, 0, a))
			}
			return c.isLowOf(c.Add(as...), t)
		}
	case OpMul:
		if lo == 0 {
			return c.isLowOf(c.Mul(c.Extract(hi, 0, t.args[0]), c.Extract(hi, 0, t.args[1])), t)
		}
	}
	if t.w <= 64 && lo > 0 && t.umax>>uint(lo) == t.umin>>uint(lo) {
		return c.BV(w, t.umax>>uint(lo))
	}
	return c.intern(&Term{op: OpExtract, w: w, u: uint64(lo), args: []*Term{t}})
}

func (c *Ctx) isLowOf(r, t *Term) *Term {
	if t.w <= 64 && (r.op == OpAdd || r.op == OpMul) {
		l := c.lowOf[r]
		for _, x := range l {
			if x == t {
				return r
			}
		}
		if len(l) < 4 {
			c.lowOf[r] = append(l, t)
		}
	}
	return r
}

// Add builds a canonical n-ary sum.
func (c *Ctx) Add(ts ...*Term) *Term {
	w := ts[0].w
	k := new(big.Int)
	type ent struct {
		t    *Term
		coef *big.Int
	}
	var order []*ent
	idx := map[*Term]*ent{}
	var add func(t *Term, m *big.Int)
	add = func(t *Term, m *big.Int) {
		switch {
		case t.isConst():
			k.Add(k, new(big.Int).Mul(t.big(), m))
		case t.op == OpAdd:
			for _, a := range t.args {
				add(a, m)
			}
		case t.op == OpMul && t.args[0].isConst():
			add(t.args[1], new(big.Int).Mul(m, t.args[0].big()))
		default:
			if e, ok := idx[t]; ok {
				e.coef = new(big.Int).Add(e.coef, m)
				return
			}
			e := &ent{t, m}
			idx[t] = e
			order = append(order, e)
		}
	}
	one := big.NewInt(1)
	for _, t := range ts {
		if t.w != w || w == 0 {
			panic(fmt.Sprintf("add width %d %d", t.w, w))
		}
		add(t, one)
	}
	mod := new(big.Int).Lsh(one, uint(w))
	k.Mod(k, mod)
	var as []*Term
	for _, e := range order {
		m := new(big.Int).Mod(e.coef, mod)
		if m.Sign() == 0 {
			continue
		}
		if m.Cmp(one) == 0 {
			as = append(as, e.t)
		} else {
			as = append(as, c.mulNode(c.BVBig(w, m), e.t))
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return c.BVBig(w, k)
	}
	if k.Sign() == 0 && len(as) == 1 {
		return as[0]
	}
	// ite(c,k1,k2)+k
	if len(as) == 1 && as[0].op == OpIte && as[0].args[1].isConst() && as[0].args[2].isConst() {
		kt := c.BVBig(w, k)
		return c.Ite(as[0].args[0], c.Add(as[0].args[1], kt), c.Add(as[0].args[2], kt))
	}
	if k.Sign() != 0 {
		as = append(as, c.BVBig(w, k))
	}
	// disjoint bits: a + b == a | b
	if len(as) == 2 {
		if d := c.disjointOr(as[0], as[1]); d != nil {
			return d
		}
	}
	return c.intern(&Term{op: OpAdd, w: w, args: as})
}

// disjointOr returns a|b when every segment has a constant zero on one side.
func (c *Ctx) disjointOr(a, b *Term) *Term {
	set := map[int]bool{}
	segBounds(a, set)
	segBounds(b, set)
	for _, t := range []*Term{a, b} {
		if t.isConst() {
			for _, r := range constRuns(t, 12) {
				set[r] = true
			}
		}
	}
	if len(set) == 0 {
		return nil
	}
	var pos []int
	for p := range set {
		pos = append(pos, p)
	}
	sort.Ints(pos)
	lo := 0
	for _, p := range append(append([]int{}, pos...), a.w) {
		if !isZero(c.Extract(p-1, lo, a)) && !isZero(c.Extract(p-1, lo, b)) {
			return nil
		}
		lo = p
	}
	return c.segwise(a, b, pos, c.BvOr)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BVBig(a.w, new(big.Int).Neg(a.big()))
	}
	return c.Mul(c.BVBig(a.w, big.NewInt(-1)), a)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	chk(a, b, "sub")
	if a == b {
		return c.BV(a.w, 0)
	}
	return c.Add(a, c.Neg(b))
}

func (c *Ctx) mulNode(k, t *Term) *Term {
	return c.intern(&Term{op: OpMul, w: t.w, args: []*Term{k, t}})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	chk(a, b, "mul")
	if bothConst(a, b) {
		if a.w <= 64 {
			return c.BV(a.w, a.u*b.u)
		}
		return c.BVBig(a.w, new(big.Int).Mul(a.b, b.b))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if isZero(a) {
			return a
		}
		v := a.big()
		if v.IsInt64() && v.Int64() == 1 {
			return b
		}
		if b.op == OpMul && b.args[0].isConst() {
			return c.Mul(c.Mul(a, b.args[0]), b.args[1])
		}
		if b.op == OpAdd {
			var as []*Term
			for _, x := range b.args {
				as = append(as, c.Mul(a, x))
			}
			return c.Add(as...)
		}
		if v.BitLen() > 0 && new(big.Int).And(v, new(big.Int).Sub(v, big.NewInt(1))).Sign() == 0 && !(v.BitLen() == a.w) {
			return c.ShlC(b, v.BitLen()-1)
		}
		if b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() {
			return c.Ite(b.args[0], c.Mul(a, b.args[1]), c.Mul(a, b.args[2]))
		}
		return c.mulNode(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	chk(a, b, "udiv")
	if b.isConst() && !isZero(b) {
		if a.isConst() {
			return c.BVBig(a.w, new(big.Int).Div(a.big(), b.big()))
		}
		v := b.big()
		if new(big.Int).And(v, new(big.Int).Sub(v, big.NewInt(1))).Sign() == 0 {
			return c.LshrC(a, v.BitLen()-1)
		}
		if a.w <= 64 && a.umax < b.u {
			return c.BV(a.w, 0)
		}
		if q, _, ok := c.divConst(a, v); ok {
			return q
		}
	}
	return c.intern(&Term{op: OpUdiv, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Urem(a, b *Term) *Term {
	chk(a, b, "urem")
	if b.isConst() && !isZero(b) {
		if a.isConst() {
			return c.BVBig(a.w, new(big.Int).Mod(a.big(), b.big()))
		}
		v := b.big()
		if new(big.Int).And(v, new(big.Int).Sub(v, big.NewInt(1))).Sign() == 0 {
			return c.BvAnd(a, c.BVBig(a.w, new(big.Int).Sub(v, big.NewInt(1))))
		}
		if a.w <= 64 && a.umax < b.u {
			return a
		}
		if _, r, ok := c.divConst(a, v); ok {
			return r
		}
	}
	return c.intern(&Term{op: OpUrem, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) nonneg(a *Term) bool {
	if a.w <= 64 {
		return a.smin >= 0
	}
	return isZero(c.Extract(a.w-1, a.w-1, a))
}

func (c *Ctx) Sdiv(a, b *Term) *Term {
	chk(a, b, "sdiv")
	if c.nonneg(a) && c.nonneg(b) {
		return c.Udiv(a, b)
	}
	if bothConst(a, b) && !isZero(b) && a.w <= 64 {
		x, y := a.s64(), b.s64()
		if y == -1 {
			return c.Neg(a)
		}
		return c.BVi(a.w, x/y)
	}
	return c.intern(&Term{op: OpSdiv, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Srem(a, b *Term) *Term {
	chk(a, b, "srem")
	if c.nonneg(a) && c.nonneg(b) {
		return c.Urem(a, b)
	}
	if bothConst(a, b) && !isZero(b) && a.w <= 64 {
		x, y := a.s64(), b.s64()
		if y == -1 {
			return c.BV(a.w, 0)
		}
		return c.BVi(a.w, x%y)
	}
	return c.intern(&Term{op: OpSrem, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) ShlC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.BV(a.w, 0)
	}
	return c.Concat(c.Extract(a.w-1-n, 0, a), c.BV(n, 0))
}

func (c *Ctx) LshrC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.BV(a.w, 0)
	}
	return c.Concat(c.BV(n, 0), c.Extract(a.w-1, n, a))
}

func (c *Ctx) AshrC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		n = a.w - 1
	}
	return c.Sext(c.Extract(a.w-1, n, a), a.w)
}

func shAmt(b *Term) (int, bool) {
	if !b.isConst() {
		return 0, false
	}
	v := b.big()
	if !v.IsInt64() || v.Int64() > 1<<30 {
		return 1 << 30, true
	}
	return int(v.Int64()), true
}

// Shift amounts have the same width as a (SMT semantics: >= w gives 0 / sign).
func (c *Ctx) Shl(a, b *Term) *Term {
	chk(a, b, "shl")
	if n, ok := shAmt(b); ok {
		return c.ShlC(a, n)
	}
	if isZero(a) {
		return a
	}
	if b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() {
		return c.Ite(b.args[0], c.Shl(a, b.args[1]), c.Shl(a, b.args[2]))
	}
	return c.intern(&Term{op: OpShl, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	chk(a, b, "lshr")
	if n, ok := shAmt(b); ok {
		return c.LshrC(a, n)
	}
	if isZero(a) {
		return a
	}
	if b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() {
		return c.Ite(b.args[0], c.Lshr(a, b.args[1]), c.Lshr(a, b.args[2]))
	}
	return c.intern(&Term{op: OpLshr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	chk(a, b, "ashr")
	if c.nonneg(a) {
		return c.Lshr(a, b)
	}
	if n, ok := shAmt(b); ok {
		return c.AshrC(a, n)
	}
	return c.intern(&Term{op: OpAshr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a == b {
		return c.T
	}
	if bothConst(a, b) {
		return c.F // interned, different
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.u == 1 {
				return b
			}
			return c.Not(b)
		}
		if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
			return c.F
		}
	} else {
		if a.w <= 64 {
			if a.umax < b.umin || b.umax < a.umin || a.smax < b.smin || b.smax < a.smin {
				return c.F
			}
		}
		if a.isConst() {
			switch b.op {
			case OpIte:
				x, y := b.args[1], b.args[2]
				if x.isConst() || y.isConst() {
					return c.Ite(b.args[0], c.Eq(a, x), c.Eq(a, y))
				}
			case OpBvNot:
				return c.Eq(c.BvNot(a), b.args[0])
			case OpAdd:
				if l := b.args[len(b.args)-1]; l.isConst() {
					return c.Eq(c.Sub(a, l), c.Add(b.args[:len(b.args)-1]...))
				}
				// the constant may sit anywhere after sorting; look for it
				for i, x := range b.args {
					if x.isConst() {
						rest := append(append([]*Term{}, b.args[:i]...), b.args[i+1:]...)
						return c.Eq(c.Sub(a, x), c.Add(rest...))
					}
				}
			case OpSext:
				in := b.args[0]
				k := c.Extract(in.w-1, 0, a)
				if c.Sext(k, a.w) != a {
					return c.F
				}
				return c.Eq(k, in)
			}
		}
		if a.op == OpConcat || b.op == OpConcat {
			set := map[int]bool{}
			if a.isConst() || b.isConst() || (a.op == OpConcat && b.op == OpConcat) || hasConstSeg(a) || hasConstSeg(b) {
				segBounds(a, set)
				segBounds(b, set)
				var pos []int
				for p := range set {
					pos = append(pos, p)
				}
				sort.Ints(pos)
				pos = append(pos, a.w)
				r := c.T
				lo := 0
				for _, p := range pos {
					e := c.Eq(c.Extract(p-1, lo, a), c.Extract(p-1, lo, b))
					r = c.And(r, e)
					if r.isFalse() {
						return r
					}
					lo = p
				}
				return r
			}
		}
		if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] {
			return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
		}
		if a.op == OpAdd || b.op == OpAdd {
			// cancel common summands
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(isZero(d))
			}
			if (d.op != OpAdd || len(d.args) <= 2) && !(d.op == OpMul) {
				if d.op == OpAdd {
					// x + k == 0 -> x == -k ; x - y == 0 -> x == y
					x, y := d.args[0], c.Neg(d.args[1])
					if !(x == a && y == b) && !(x == b && y == a) && (y.isConst() || y.op != OpMul) {
						return c.Eq(x, y)
					}
				} else {
					return c.Eq(d, c.BV(a.w, 0))
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpEq, args: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	chk(a, b, "ult")
	if a == b {
		return c.F
	}
	if a.w <= 64 {
		if a.umax < b.umin {
			return c.T
		}
		if a.umin >= b.umax {
			return c.F
		}
	} else if bothConst(a, b) {
		return c.Bool(a.b.Cmp(b.b) < 0)
	}
	if isZero(b) {
		return c.F
	}
	// strip common leading zero / equal prefixes
	if (a.op == OpConcat || a.isConst()) && (b.op == OpConcat || b.isConst()) {
		wa, wb := leadSeg(a), leadSeg(b)
		n := min(wa, wb)
		if n > 0 && n < a.w {
			ha, hb := c.Extract(a.w-1, a.w-n, a), c.Extract(b.w-1, b.w-n, b)
			if ha == hb {
				return c.Ult(c.Extract(a.w-n-1, 0, a), c.Extract(b.w-n-1, 0, b))
			}
			if bothConst(ha, hb) {
				return c.Bool(ha.big().Cmp(hb.big()) < 0)
			}
		}
		// common trailing part (both zero)
		ta, tb := trailSeg(a), trailSeg(b)
		n = min(ta, tb)
		if n > 0 && n < a.w {
			la, lb := c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)
			if la == lb {
				return c.Ult(c.Extract(a.w-1, n, a), c.Extract(b.w-1, n, b))
			}
		}
	}
	if b.isConst() {
		v := b.big()
		if new(big.Int).And(v, new(big.Int).Sub(v, big.NewInt(1))).Sign() == 0 {
			k := v.BitLen() - 1 // a < 2^k
			return c.Eq(c.Extract(a.w-1, k, a), c.BV(a.w-k, 0))
		}
		if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
		}
	}
	if a.isConst() {
		if isZero(a) {
			return c.Not(c.Eq(b, a))
		}
		// 2^k-1 < b  <=>  b >= 2^k
		v := new(big.Int).Add(a.big(), big.NewInt(1))
		if v.BitLen() <= a.w && new(big.Int).And(v, a.big()).Sign() == 0 {
			k := v.BitLen() - 1
			return c.Not(c.Eq(c.Extract(a.w-1, k, b), c.BV(a.w-k, 0)))
		}
		if b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() {
			return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
		}
	}
	return c.intern(&Term{op: OpUlt, args: []*Term{a, b}})
}

func leadSeg(t *Term) int {
	if t.op == OpConcat {
		return t.args[0].w
	}
	return t.w
}

func trailSeg(t *Term) int {
	if t.op == OpConcat {
		return t.args[len(t.args)-1].w
	}
	return t.w
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	chk(a, b, "slt")
	if a == b {
		return c.F
	}
	if a.w <= 64 {
		if a.smax < b.smin {
			return c.T
		}
		if a.smin >= b.smax {
			return c.F
		}
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if isZero(b) {
		return c.V2B(c.Extract(a.w-1, a.w-1, a))
	}
	// x + k1 < k2 with no overflow possible  ->  x < k2-k1
	if a.w <= 64 {
		if t := c.sltShift(a, b); t != nil {
			return t
		}
	}
	if b.isConst() && a.op == OpIte && (a.args[1].isConst() && a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	if a.isConst() && b.op == OpIte && (b.args[1].isConst() && b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Slt(a, b.args[1]), c.Slt(a, b.args[2]))
	}
	return c.intern(&Term{op: OpSlt, args: []*Term{a, b}})
}

// sltShift normalises (sum + k) <s const and const <s (sum + k) when the
// interval analysis shows that neither side overflows.
func (c *Ctx) sltShift(a, b *Term) *Term {
	strip := func(t *Term) (*Term, int64, bool) {
		if t.op != OpAdd {
			return nil, 0, false
		}
		for i, x := range t.args {
			if x.isConst() {
				rest := c.Add(append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)...)
				k := x.s64()
				lo, hi := rest.smin+k, rest.smax+k
				if (k >= 0) == (lo >= rest.smin) && (k >= 0) == (hi >= rest.smax) && lo >= int64(-1)<<(uint(t.w)-1) && hi <= int64(uint64(1)<<(uint(t.w)-1)-1) {
					return rest, k, true
				}
			}
		}
		return nil, 0, false
	}
	lim := int64(uint64(1)<<(uint(a.w)-1) - 1)
	if b.isConst() {
		if r, k, ok := strip(a); ok {
			d := b.s64() - k
			if (k <= 0) == (d >= b.s64()) && d <= lim && d >= -lim-1 {
				return c.Slt(r, c.BVi(a.w, d))
			}
		}
	}
	if a.isConst() {
		if r, k, ok := strip(b); ok {
			d := a.s64() - k
			if (k <= 0) == (d >= a.s64()) && d <= lim && d >= -lim-1 {
				return c.Slt(c.BVi(a.w, d), r)
			}
		}
	}
	return nil
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- printing

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, depth int) {
	if depth > 12 {
		sb.WriteString("...")
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprint(sb, t.u == 1)
		} else {
			fmt.Fprintf(sb, "%v:%d", t.big(), t.w)
		}
	case OpVar:
		sb.WriteString(t.name)
	case OpExtract:
		fmt.Fprintf(sb, "[%d:%d]", int(t.u)+t.w-1, t.u)
		t.args[0].str(sb, depth+1)
	default:
		n, ok := opNames[t.op]
		if !ok {
			n = fmt.Sprintf("op%d", t.op)
		}
		sb.WriteString("(" + n)
		for _, a := range t.args {
			sb.WriteString(" ")
			a.str(sb, depth+1)
		}
		sb.WriteString(")")
	}
}
