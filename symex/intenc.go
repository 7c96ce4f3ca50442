package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Integer encoding: a conjunction over bit-vectors written as linear integer
// arithmetic. Every bit-vector term is a linear polynomial over integer atoms;
// a wrapping sum, a cut into bits and a division by a constant each bring a new
// atom for the integer quotient, tied by linear inequalities. The encoding is
// exact; terms with no such form (products of two unknowns, bitwise operations
// that are not cuts) make it fail.

type poly struct {
	c map[int]*big.Int // atom -> coefficient
	k *big.Int
}

type atom struct {
	lo, hi *big.Int
	def    *poly // this is floor(def/d), if def is not nil
	d      *big.Int
}

type intEnc struct {
	atoms  []atom
	vars   []*Term // bit-vector variables, with their atom
	vatom  []int
	boolID map[*Term]int
	pol    map[*Term]*poly
	flo    map[string]int // floor atoms by polynomial and divisor
	side   []string       // defining constraints
	bmemo  map[*Term]string
	defs   []string
	fail   bool
}

func newIntEnc() *intEnc {
	return &intEnc{boolID: map[*Term]int{}, pol: map[*Term]*poly{}, flo: map[string]int{}, bmemo: map[*Term]string{}}
}

func (e *intEnc) atom(lo, hi *big.Int) int {
	e.atoms = append(e.atoms, atom{lo: lo, hi: hi})
	return len(e.atoms) - 1
}

func constPoly(k *big.Int) *poly { return &poly{map[int]*big.Int{}, k} }

func atomPoly(a int) *poly { return &poly{map[int]*big.Int{a: bigOne}, new(big.Int)} }

func (p *poly) addScaled(q *poly, s *big.Int) *poly {
	r := &poly{make(map[int]*big.Int, len(p.c)+len(q.c)), new(big.Int).Mul(q.k, s)}
	r.k.Add(r.k, p.k)
	for a, c := range p.c {
		r.c[a] = c
	}
	for a, c := range q.c {
		v := new(big.Int).Mul(c, s)
		if o := r.c[a]; o != nil {
			v.Add(v, o)
		}
		if v.Sign() == 0 {
			delete(r.c, a)
		} else {
			r.c[a] = v
		}
	}
	return r
}

func (p *poly) keys() []int {
	ks := make([]int, 0, len(p.c))
	for a := range p.c {
		ks = append(ks, a)
	}
	sort.Ints(ks)
	return ks
}

// bounds of p: of the polynomial as it is, and of what it becomes when quotients
// are replaced by (dividend - remainder) / divisor, the latest one first.
func (e *intEnc) bounds(p *poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(p.k), new(big.Int).Set(p.k)
	defs := false
	for a, c := range p.c {
		x, y := new(big.Int).Mul(c, e.atoms[a].lo), new(big.Int).Mul(c, e.atoms[a].hi)
		if c.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
		defs = defs || e.atoms[a].def != nil
	}
	if !defs || lo.Cmp(hi) == 0 {
		return lo, hi
	}
	cs := map[int]*big.Rat{}
	for a, c := range p.c {
		cs[a] = new(big.Rat).SetInt(c)
	}
	// p = sum(cs) + [rlo, rhi]
	rlo, rhi := new(big.Rat).SetInt(p.k), new(big.Rat).SetInt(p.k)
	for {
		q := -1
		for a := range cs {
			if a > q && e.atoms[a].def != nil {
				q = a
			}
		}
		if q < 0 {
			return lo, hi
		}
		at := e.atoms[q]
		f := new(big.Rat).Quo(cs[q], new(big.Rat).SetInt(at.d))
		delete(cs, q)
		for a, c := range at.def.c {
			v := new(big.Rat).Mul(f, new(big.Rat).SetInt(c))
			if o := cs[a]; o != nil {
				v.Add(v, o)
			}
			if v.Sign() == 0 {
				delete(cs, a)
			} else {
				cs[a] = v
			}
		}
		k := new(big.Rat).Mul(f, new(big.Rat).SetInt(at.def.k))
		rlo.Add(rlo, k)
		rhi.Add(rhi, k)
		r := new(big.Rat).Mul(f, new(big.Rat).SetInt(new(big.Int).Sub(at.d, bigOne)))
		if r.Sign() > 0 {
			rlo.Sub(rlo, r)
		} else {
			rhi.Sub(rhi, r)
		}
		slo, shi := new(big.Rat).Set(rlo), new(big.Rat).Set(rhi)
		for a, c := range cs {
			x := new(big.Rat).Mul(c, new(big.Rat).SetInt(e.atoms[a].lo))
			y := new(big.Rat).Mul(c, new(big.Rat).SetInt(e.atoms[a].hi))
			if c.Sign() < 0 {
				x, y = y, x
			}
			slo.Add(slo, x)
			shi.Add(shi, y)
		}
		// round inwards
		l := new(big.Int).Neg(floorDiv(new(big.Int).Neg(slo.Num()), slo.Denom()))
		h := floorDiv(shi.Num(), shi.Denom())
		if l.Cmp(lo) > 0 {
			lo = l
		}
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
}

func num(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (p *poly) String() string {
	if len(p.c) == 0 {
		return num(p.k)
	}
	var ts []string
	for _, a := range p.keys() {
		c := p.c[a]
		if c.Cmp(bigOne) == 0 {
			ts = append(ts, fmt.Sprintf("i%d", a))
		} else {
			ts = append(ts, fmt.Sprintf("(* %s i%d)", num(c), a))
		}
	}
	if p.k.Sign() != 0 {
		ts = append(ts, num(p.k))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(bigOne, uint(k)) }

func floorDiv(a, d *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, d, new(big.Int)) // Euclidean, d > 0
	return q
}

// floor is the polynomial for floor(p/d), d > 0.
func (e *intEnc) floor(p *poly, d *big.Int) *poly {
	whole := constPoly(new(big.Int))
	rest := &poly{map[int]*big.Int{}, new(big.Int)}
	for _, a := range p.keys() {
		q, r := new(big.Int).QuoRem(p.c[a], d, new(big.Int))
		if r.Sign() == 0 {
			whole = whole.addScaled(atomPoly(a), q)
		} else {
			rest.c[a] = p.c[a]
		}
	}
	q, r := new(big.Int).DivMod(p.k, d, new(big.Int))
	whole.k = q
	rest.k = r
	// a common factor of the rest and the divisor goes
	g := new(big.Int).Set(d)
	for _, c := range rest.c {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(bigOne) > 0 {
		s := &poly{map[int]*big.Int{}, floorDiv(rest.k, g)}
		for a, c := range rest.c {
			s.c[a] = new(big.Int).Div(c, g)
		}
		rest, d = s, new(big.Int).Div(d, g)
	}
	lo, hi := e.bounds(rest)
	ql, qh := floorDiv(lo, d), floorDiv(hi, d)
	if ql.Cmp(qh) == 0 {
		whole.k = new(big.Int).Add(whole.k, ql)
		return whole
	}
	key := rest.String() + "/" + d.String()
	a, ok := e.flo[key]
	if !ok {
		a = e.atom(ql, qh)
		e.flo[key] = a
		e.atoms[a].def, e.atoms[a].d = rest, d
		x := constPoly(new(big.Int)).addScaled(atomPoly(a), d)
		y := &poly{x.c, new(big.Int).Sub(d, bigOne)}
		e.side = append(e.side, fmt.Sprintf("(<= %s %s)", x, rest), fmt.Sprintf("(<= %s %s)", rest, y))
	}
	return whole.addScaled(atomPoly(a), bigOne)
}

// mod reduces p modulo 2^w.
func (e *intEnc) mod(p *poly, w int) *poly {
	m := pow2(w)
	q := e.floor(p, m)
	return p.addScaled(q, new(big.Int).Neg(m))
}

// signed takes a constant modulo 2^w as the closest to zero.
func signed(k *big.Int, w int) *big.Int {
	if k.Bit(w-1) == 1 {
		return new(big.Int).Sub(k, pow2(w))
	}
	return k
}

func (e *intEnc) of(t *Term) *poly {
	if p, ok := e.pol[t]; ok {
		return p
	}
	p := e.make(t)
	if p == nil {
		e.fail = true
		p = constPoly(new(big.Int))
	}
	e.pol[t] = p
	return p
}

func (e *intEnc) make(t *Term) *poly {
	switch t.op {
	case OpConst:
		return constPoly(t.big())
	case OpVar:
		a := e.atom(new(big.Int), new(big.Int).Sub(pow2(t.w), bigOne))
		if t.w <= 64 {
			e.atoms[a] = atom{lo: new(big.Int).SetUint64(t.umin), hi: new(big.Int).SetUint64(t.umax)}
		}
		e.vars, e.vatom = append(e.vars, t), append(e.vatom, a)
		return atomPoly(a)
	case OpAdd, OpMul:
		s, ok := e.sum(t, t.w)
		if !ok {
			return nil
		}
		return e.mod(s, t.w)
	case OpConcat:
		s := constPoly(new(big.Int))
		off := t.w
		for _, x := range t.args {
			off -= x.w
			s = s.addScaled(e.of(x), pow2(off))
		}
		return s
	case OpExtract:
		hi, lo := int(t.u)+t.w-1, int(t.u)
		x := t.args[0]
		if lo == 0 && (x.op == OpAdd || x.op == OpMul) {
			s, ok := e.sum(x, t.w)
			if !ok {
				return nil
			}
			return e.mod(s, t.w)
		}
		p := e.of(x)
		v := e.floor(p, pow2(lo))
		if hi+1 < x.w {
			v = v.addScaled(e.floor(p, pow2(hi+1)), new(big.Int).Neg(pow2(hi+1-lo)))
		}
		return v
	case OpUdiv, OpUrem:
		if !t.args[1].isConst() || isZero(t.args[1]) {
			return nil
		}
		d := t.args[1].big()
		p := e.of(t.args[0])
		q := e.floor(p, d)
		if t.op == OpUdiv {
			return q
		}
		return p.addScaled(q, new(big.Int).Neg(d))
	case OpBvNot:
		return constPoly(new(big.Int).Sub(pow2(t.w), bigOne)).addScaled(e.of(t.args[0]), big.NewInt(-1))
	case OpIte:
		c := e.boolean(t.args[0])
		x, y := e.of(t.args[1]), e.of(t.args[2])
		l1, h1 := e.bounds(x)
		l2, h2 := e.bounds(y)
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		a := e.atom(l1, h1)
		e.side = append(e.side, fmt.Sprintf("(ite %s (= i%d %s) (= i%d %s))", c, a, x, a, y))
		return atomPoly(a)
	case OpBvOr, OpBvXor:
		// of numbers with no bit in common
		s := e.of(t.args[0])
		for _, x := range t.args[1:] {
			p := e.of(x)
			if !e.disjoint(s, p) && !e.disjoint(p, s) {
				return nil
			}
			s = s.addScaled(p, bigOne)
		}
		return s
	case OpSext:
		x := t.args[0]
		p := e.signedOf(x)
		return e.mod(p, t.w)
	}
	return nil
}

// disjoint tells whether p is below a power of two that divides q.
func (e *intEnc) disjoint(p, q *poly) bool {
	_, hi := e.bounds(p)
	n := uint(hi.BitLen())
	if hi.Sign() < 0 || q.k.Sign() != 0 && q.k.TrailingZeroBits() < n {
		return false
	}
	for _, c := range q.c {
		if c.TrailingZeroBits() < n {
			return false
		}
	}
	return true
}

// sum is a sum or product with a constant, taken modulo 2^w and not reduced.
func (e *intEnc) sum(t *Term, w int) (*poly, bool) {
	switch {
	case t.op == OpAdd:
		s := constPoly(new(big.Int))
		for _, x := range t.args {
			p, ok := e.sum(x, w)
			if !ok {
				return nil, false
			}
			s = s.addScaled(p, bigOne)
		}
		return s, true
	case t.op == OpMul:
		if !t.args[0].isConst() {
			return nil, false
		}
		k := new(big.Int).And(t.args[0].big(), new(big.Int).Sub(pow2(w), bigOne))
		p, ok := e.sum(t.args[1], w)
		if !ok {
			return nil, false
		}
		return constPoly(new(big.Int)).addScaled(p, signed(k, w)), true
	case t.isConst():
		return constPoly(signed(new(big.Int).And(t.big(), new(big.Int).Sub(pow2(w), bigOne)), w)), true
	case t.op == OpBvNot && t.w == w:
		p := e.of(t.args[0])
		return constPoly(big.NewInt(-1)).addScaled(p, big.NewInt(-1)), true
	}
	return e.of(t), true
}

func (e *intEnc) signedOf(t *Term) *poly {
	p := e.of(t)
	if t.w <= 64 && t.smin >= 0 {
		return p
	}
	lo, hi := e.bounds(p)
	half := pow2(t.w - 1)
	if hi.Cmp(half) < 0 {
		return p
	}
	if lo.Cmp(half) >= 0 {
		return p.addScaled(constPoly(pow2(t.w)), big.NewInt(-1))
	}
	return p.addScaled(e.floor(p, half), new(big.Int).Neg(pow2(t.w)))
}

func (e *intEnc) boolean(t *Term) string {
	if s, ok := e.bmemo[t]; ok {
		return s
	}
	s := e.makeBool(t)
	if len(s) > 60 {
		n := fmt.Sprintf("b%d", len(e.bmemo))
		e.defs = append(e.defs, n)
		e.side = append(e.side, fmt.Sprintf("(= %s %s)", n, s))
		s = n
	}
	e.bmemo[t] = s
	return s
}

func (e *intEnc) rel(op string, x, y *poly) string {
	d := x.addScaled(y, big.NewInt(-1))
	lo, hi := e.bounds(d)
	z := new(big.Int)
	switch op {
	case "<":
		if hi.Cmp(z) < 0 {
			return "true"
		}
		if lo.Cmp(z) >= 0 {
			return "false"
		}
	case "=":
		if lo.Sign() > 0 || hi.Sign() < 0 {
			return "false"
		}
		if lo.Sign() == 0 && hi.Sign() == 0 {
			return "true"
		}
	}
	k := d.k
	d.k = z
	return fmt.Sprintf("(%s %s %s)", op, d, num(new(big.Int).Neg(k)))
}

func (e *intEnc) makeBool(t *Term) string {
	switch t.op {
	case OpConst:
		if t.isTrue() {
			return "true"
		}
		return "false"
	case OpVar:
		e.boolID[t] = len(e.boolID)
		return fmt.Sprintf("v%d", e.boolID[t])
	case OpNot:
		return "(not " + e.boolean(t.args[0]) + ")"
	case OpAnd:
		return "(and " + e.boolean(t.args[0]) + " " + e.boolean(t.args[1]) + ")"
	case OpOr:
		return "(or " + e.boolean(t.args[0]) + " " + e.boolean(t.args[1]) + ")"
	case OpIte:
		return "(ite " + e.boolean(t.args[0]) + " " + e.boolean(t.args[1]) + " " + e.boolean(t.args[2]) + ")"
	case OpEq:
		if t.args[0].w == 0 {
			return "(= " + e.boolean(t.args[0]) + " " + e.boolean(t.args[1]) + ")"
		}
		return e.rel("=", e.of(t.args[0]), e.of(t.args[1]))
	case OpUlt:
		return e.rel("<", e.of(t.args[0]), e.of(t.args[1]))
	case OpSlt:
		return e.rel("<", e.signedOf(t.args[0]), e.signedOf(t.args[1]))
	}
	e.fail = true
	return "false"
}

// script is the whole problem; ok is false if some term has no integer form.
func (e *intEnc) script(asserts []*Term) (string, bool) {
	var as []string
	for _, a := range asserts {
		as = append(as, e.boolean(a))
	}
	if e.fail {
		return "", false
	}
	var sb strings.Builder
	for i, a := range e.atoms {
		fmt.Fprintf(&sb, "(declare-const i%d Int)\n(assert (<= %s i%d %s))\n", i, num(a.lo), i, num(a.hi))
	}
	for i := range e.boolID {
		fmt.Fprintf(&sb, "(declare-const v%d Bool)\n", e.boolID[i])
	}
	for _, n := range e.defs {
		fmt.Fprintf(&sb, "(declare-const %s Bool)\n", n)
	}
	for _, s := range e.side {
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	for _, s := range as {
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	return sb.String(), true
}
