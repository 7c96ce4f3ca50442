package main

// State merging. A conditional that keeps forking (a loop over the bits of a
// symbolic value) is executed on both sides up to the point where they meet
// again, and the two states are merged with if-then-else terms. Only simple
// regions qualify: no further fork, no panic, no input, and effects limited to
// scalar cells, big.Int values and string builders. Anything else falls back to
// forking.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{}

// undo is one logged effect: a scalar cell or a native object.
type undo struct {
	cell ptr
	old  Value
	bi   *BI
	oldB BI
	sb   *SB
	oldS SB
}

type specState struct {
	log    []undo
	blocks int
	cond   *Term           // the arm's condition
	fresh  map[*Value]bool // first elements of the slices allocated so far
	outer  *specState
}

const specAfter = 3 // forks at one conditional before merging is tried

func (e *Exec) specStop() {
	if e.spec != nil {
		panic(specAbort{})
	}
}

// logCell records a scalar cell about to be overwritten.
func (e *Exec) logCell(p ptr) {
	if e.spec != nil {
		e.spec.log = append(e.spec.log, undo{cell: p, old: *p})
	}
}

func (s *specState) undoAll() {
	for i := len(s.log) - 1; i >= 0; i-- {
		u := s.log[i]
		switch {
		case u.cell != nil:
			*u.cell = u.old
		case u.bi != nil:
			*u.bi = u.oldB
		case u.sb != nil:
			*u.sb = u.oldS
		}
	}
	s.log = nil
}

// specCall is told about intrinsic calls: it logs the objects they may change.
func (e *Exec) specCall(key string, args []Value) {
	if e.spec == nil {
		return
	}
	ok := false
	for _, p := range []string{"(*math/big.Int).", "(*strings.Builder).", "(*bytes.Buffer).", "math.", "math/bits.", "fmt.Sprint", "strconv.", "strings.", "math/big.NewInt"} {
		ok = ok || strings.HasPrefix(key, p)
	}
	if !ok {
		panic(specAbort{})
	}
	for _, a := range args {
		if s, isS := a.(sliceV); isS {
			s = s[:cap(s)]
			for i := range s {
				if _, isT := s[i].(*Term); isT {
					e.spec.log = append(e.spec.log, undo{cell: &s[i], old: s[i]})
				}
			}
		}
		p, isP := a.(ptr)
		if !isP || p == nil {
			continue
		}
		switch x := (*p).(type) {
		case *BI:
			e.spec.log = append(e.spec.log, undo{bi: x, oldB: *x})
		case *SB:
			e.spec.log = append(e.spec.log, undo{sb: x, oldS: *x})
		case *BF:
			panic(specAbort{})
		}
	}
}

// joins computes, for every block, where its two sides meet again: the
// immediate postdominator inside the innermost loop around the block (reaching
// the next iteration counts as the loop's end, leaving the loop does not count),
// else in the whole function with panicking blocks left out. nil: the function
// returns.
func (g *Engine) joins(f *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	g.pdMu.Lock()
	defer g.pdMu.Unlock()
	if m, ok := g.pd[f]; ok {
		return m
	}
	n := len(f.Blocks)
	isPanic := func(b *ssa.BasicBlock) bool {
		if len(b.Instrs) == 0 {
			return false
		}
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	all := map[int]bool{}
	for _, b := range f.Blocks {
		if !isPanic(b) {
			all[b.Index] = true
		}
	}
	for b, j := range ipdom(f, all, nil) {
		r[b] = j
	}
	// natural loops, biggest first
	body := map[int]map[int]bool{}
	for _, t := range f.Blocks {
		for _, h := range t.Succs {
			if !h.Dominates(t) {
				continue
			}
			m := body[h.Index]
			if m == nil {
				m = map[int]bool{h.Index: true}
				body[h.Index] = m
			}
			work := []*ssa.BasicBlock{t}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if m[b.Index] {
					continue
				}
				m[b.Index] = true
				work = append(work, b.Preds...)
			}
		}
	}
	for size := n; size > 0; size-- {
		for h := 0; h < n; h++ {
			if m := body[h]; len(m) == size {
				for b, j := range ipdom(f, m, f.Blocks[h]) {
					r[b] = j
				}
			}
		}
	}
	g.pd[f] = r
	return r
}

// ipdom computes immediate postdominators within a set of blocks. With a header,
// an edge to it ends the region and the other ways out are ignored; the header
// then stands for the next iteration.
func ipdom(f *ssa.Function, in map[int]bool, header *ssa.BasicBlock) map[*ssa.BasicBlock]*ssa.BasicBlock {
	const end = -1
	succs := func(b int) []int {
		var r []int
		for _, s := range f.Blocks[b].Succs {
			switch {
			case header != nil && s == header:
				r = append(r, end)
			case in[s.Index]:
				r = append(r, s.Index)
			}
		}
		if header == nil && len(f.Blocks[b].Succs) == 0 {
			r = append(r, end)
		}
		return r
	}
	pdom := map[int]map[int]bool{end: {end: true}}
	full := map[int]bool{end: true}
	for b := range in {
		full[b] = true
	}
	for b := range in {
		pdom[b] = full
	}
	for changed := true; changed; {
		changed = false
		for b := len(f.Blocks) - 1; b >= 0; b-- {
			if !in[b] {
				continue
			}
			ss := succs(b)
			if len(ss) == 0 {
				continue // no way on: keeps every block
			}
			m := map[int]bool{b: true}
			for k := range pdom[ss[0]] {
				ok := true
				for _, s := range ss[1:] {
					ok = ok && pdom[s][k]
				}
				if ok {
					m[k] = true
				}
			}
			if len(m) != len(pdom[b]) {
				pdom[b] = m
				changed = true
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for b := range in {
		var j *ssa.BasicBlock
		for k := range pdom[b] {
			if k == b || len(pdom[k]) != len(pdom[b])-1 {
				continue
			}
			if k == end {
				j = header
			} else {
				j = f.Blocks[k]
			}
		}
		r[f.Blocks[b]] = j
	}
	return r
}

type armResult struct {
	phis []Value
	ret  Value
	log  []undo
	vals []Value // values after the arm, per log entry
	frsh map[*Value]bool
}

// tryMerge executes both sides of the conditional ending block b and merges
// them at the join. It returns the join block (nil with done set: the function
// returned) or ok == false.
func (fr *frame) tryMerge(b *ssa.BasicBlock, c *Term) (join *ssa.BasicBlock, ok bool) {
	e := fr.e
	if fr.panicking || len(fr.defers) > 0 {
		return nil, false
	}
	J := e.eng.joins(fr.fn)[b]
	depth, pos, steps, cur := e.depth, e.pos, e.steps, e.fr
	savePrev, saveBlock, saveRes := fr.prev, fr.block, fr.result
	arm := func(s *ssa.BasicBlock, cond *Term) (res *armResult) {
		st := &specState{outer: e.spec, cond: cond, fresh: map[*Value]bool{}}
		e.spec = st
		defer func() {
			e.spec = st.outer
			if r := recover(); r != nil {
				st.undoAll()
				e.depth, e.pos, e.fr = depth, pos, cur
				e.steps = steps
				fr.prev, fr.block, fr.result = savePrev, saveBlock, saveRes
				fr.panicking, fr.pan = false, nil
				fr.mergedAt, fr.merged = nil, nil
				switch r := r.(type) {
				case specAbort, targetPanic:
					res = nil
				case pathStop:
					if r.kind == "internal" {
						panic(r)
					}
					res = nil
				default:
					panic(r)
				}
			}
		}()
		res = &armResult{frsh: st.fresh}
		prev, blk := b, s
		for blk != J {
			if st.blocks++; st.blocks > 64 || blk.Dominates(b) {
				// a block that dominates b would redefine values b's side uses
				panic(specAbort{})
			}
			fr.prev, fr.block = prev, blk
			next := fr.runBlock()
			if next == nil {
				if J != nil {
					panic(specAbort{}) // returned before the join
				}
				break
			}
			prev, blk = blk, next
		}
		if J != nil {
			// phi values at the join
			fr.prev = prev
			if fr.mergedAt == J {
				res.phis = fr.merged // an inner conditional joins here too
				fr.mergedAt, fr.merged = nil, nil
			} else {
				res.phis = fr.phiValues(J)
			}
		} else {
			res.ret = fr.result
		}
		// first entry per object counts as the old value; collect the new ones
		seen := map[interface{}]bool{}
		for _, u := range st.log {
			var k interface{}
			switch {
			case u.cell != nil:
				k = u.cell
			case u.bi != nil:
				k = u.bi
			default:
				k = u.sb
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			res.log = append(res.log, u)
			switch {
			case u.cell != nil:
				res.vals = append(res.vals, *u.cell)
			case u.bi != nil:
				x := *u.bi
				res.vals = append(res.vals, &x)
			default:
				x := *u.sb
				res.vals = append(res.vals, &x)
			}
		}
		st.undoAll()
		fr.prev, fr.block, fr.result = savePrev, saveBlock, saveRes
		return res
	}
	// a side that cannot be executed this way may be impossible altogether
	t := arm(b.Succs[0], c)
	if t == nil {
		if e.specInfeasible(c) {
			return b.Succs[1], true
		}
		return nil, false
	}
	f := arm(b.Succs[1], e.c.Not(c))
	if f == nil {
		if e.specInfeasible(e.c.Not(c)) {
			return b.Succs[0], true
		}
		return nil, false
	}
	// merge everything before committing anything
	saveFresh := e.fresh
	e.fresh = map[*Value]bool{}
	for k := range t.frsh {
		e.fresh[k] = true
	}
	for k := range f.frsh {
		e.fresh[k] = true
	}
	defer func() {
		if e.spec != nil {
			for _, k := range e.mergedArr {
				e.spec.fresh[k] = true
			}
		}
		e.fresh, e.mergedArr = saveFresh, nil
	}()
	type upd struct {
		u undo
		v Value
	}
	var ups []upd
	other := func(r *armResult, u undo) (Value, bool) {
		for i, x := range r.log {
			if x.cell == u.cell && x.bi == u.bi && x.sb == u.sb {
				return r.vals[i], true
			}
		}
		return nil, false
	}
	oldOf := func(u undo) Value {
		switch {
		case u.cell != nil:
			return u.old
		case u.bi != nil:
			x := u.oldB
			return &x
		}
		x := u.oldS
		return &x
	}
	for i, u := range t.log {
		fv, has := other(f, u)
		if !has {
			fv = oldOf(u)
		}
		v, ok := e.mergeVal(c, t.vals[i], fv)
		if !ok {
			return nil, false
		}
		ups = append(ups, upd{u, v})
	}
	for i, u := range f.log {
		if _, has := other(t, u); has {
			continue
		}
		v, ok := e.mergeVal(c, oldOf(u), f.vals[i])
		if !ok {
			return nil, false
		}
		ups = append(ups, upd{u, v})
	}
	var phis []Value
	var ret Value
	if J != nil {
		for i := range t.phis {
			v, ok := e.mergeVal(c, t.phis[i], f.phis[i])
			if !ok {
				return nil, false
			}
			phis = append(phis, v)
		}
	} else {
		v, ok := e.mergeVal(c, t.ret, f.ret)
		if !ok {
			return nil, false
		}
		ret = v
	}
	for _, x := range ups {
		switch {
		case x.u.cell != nil:
			e.logCell(x.u.cell)
			*x.u.cell = x.v
		case x.u.bi != nil:
			if e.spec != nil {
				e.spec.log = append(e.spec.log, undo{bi: x.u.bi, oldB: *x.u.bi})
			}
			*x.u.bi = *x.v.(*BI)
		default:
			if e.spec != nil {
				e.spec.log = append(e.spec.log, undo{sb: x.u.sb, oldS: *x.u.sb})
			}
			*x.u.sb = *x.v.(*SB)
		}
	}
	if J == nil {
		fr.result = ret
		return nil, true
	}
	fr.merged = phis
	fr.mergedAt = J
	return J, true
}

// specGoal is c together with the conditions of the sides being executed.
func (e *Exec) specGoal(c *Term) *Term {
	for s := e.spec; s != nil; s = s.outer {
		c = e.c.And(c, s.cond)
	}
	return c
}

func (e *Exec) specInfeasible(c *Term) bool {
	r, _ := e.check(e.specGoal(c), e.eng.branchTimeout)
	e.eng.countBranch()
	return r == Unsat
}

// specDecide decides a condition inside a side being merged, if it is forced.
func (e *Exec) specDecide(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if e.specInfeasible(c) {
		return false
	}
	if e.specInfeasible(e.c.Not(c)) {
		return true
	}
	panic(specAbort{})
}

// phiValues evaluates the phis of b on entry from fr.prev.
func (fr *frame) phiValues(b *ssa.BasicBlock) []Value {
	var r []Value
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == fr.prev {
				r = append(r, fr.get(phi.Edges[k]))
				break
			}
		}
	}
	return r
}

// mergeVal builds ite(c, a, b).
func (e *Exec) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return e.mergeTerm(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y || !x.sym && !y.sym && x.lit == y.lit {
			return x, true
		}
		xb, yb := e.strBytes(x), e.strBytes(y)
		if len(xb) != len(yb) {
			return nil, false
		}
		r := make([]SByte, len(xb))
		for i := range xb {
			switch {
			case xb[i].dec != nil || yb[i].dec != nil:
				if xb[i].dec != yb[i].dec {
					return nil, false
				}
				r[i] = xb[i]
			default:
				r[i] = SByte{t: e.mergeChar(c, xb[i].t, yb[i].t)}
			}
		}
		return e.mkStr(r), true
	case tupleV:
		y, ok := b.(tupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(tupleV, len(x))
		for i := range x {
			if r[i], ok = e.mergeVal(c, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case structV:
		y, ok := b.(structV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(structV, len(x))
		for i := range x {
			if r[i], ok = e.mergeVal(c, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case arrayV:
		y, ok := b.(arrayV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(arrayV, len(x))
		for i := range x {
			if r[i], ok = e.mergeVal(c, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case sliceV:
		y, ok := b.(sliceV)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if cap(x) == 0 || &x[:1][0] == &y[:1][0] {
			return x, true
		}
		// two fresh arrays: merge their elements
		if !e.fresh[&x[:1][0]] || !e.fresh[&y[:1][0]] {
			return nil, false
		}
		fx, fy := x[:cap(x)], y[:cap(y)]
		r := make(sliceV, len(fx))
		for i := range fx {
			a, ok1 := fx[i].(*Term)
			b, ok2 := fy[i].(*Term)
			if !ok1 || !ok2 || a.w != b.w {
				return nil, false
			}
			if i >= len(x) {
				// not visible through the slice; still a valid cell
				r[i] = a
				continue
			}
			if a.w == 8 {
				r[i] = e.mergeChar(c, a, b)
			} else {
				r[i] = e.mergeTerm(c, a, b)
			}
		}
		// each may be merged once: a second reference would alias it
		e.fresh[&x[:1][0]], e.fresh[&y[:1][0]] = false, false
		e.mergedArr = append(e.mergedArr, &r[0])
		return r[:len(x)], true
	case ptr:
		y, ok := b.(ptr)
		return x, ok && x == y
	case *BI:
		y, ok := b.(*BI)
		if !ok {
			return nil, false
		}
		m, n := e.pad2(e.magOr(x), e.magOr(y), 0)
		z := &BI{}
		e.biSet(z, e.mergeBool(c, x.neg, y.neg), e.mergeTerm(c, m, n))
		return z, true
	case *SB:
		y, ok := b.(*SB)
		if !ok || x.off != y.off {
			return nil, false
		}
		s, ok := e.mergeVal(c, x.s, y.s)
		if !ok {
			return nil, false
		}
		return &SB{s: s.(*Str), off: x.off}, true
	case ifaceV:
		y, ok := b.(ifaceV)
		if ok && x.t == nil && y.t == nil {
			return x, true
		}
		return nil, false
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return x, ok && x == y
	}
	return nil, false
}

// mergeChar is ite for characters; digits stay recognisable.
func (e *Exec) mergeChar(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	r := e.c.Ite(c, a, b)
	if r.isConst() {
		return r
	}
	if _, ok := e.digOf[r]; !ok {
		da, ba := e.digitOf(a)
		db, bb := e.digitOf(b)
		if da != nil && db != nil {
			e.digOf[r] = digHint{e.c.Ite(c, da, db), max(ba, bb)}
		}
	}
	return r
}

func (e *Exec) digitOf(t *Term) (*Term, int) {
	if h, ok := e.digOf[t]; ok {
		return h.d, h.base
	}
	if t.isConst() {
		if d := digitVal(byte(t.u)); d < 36 {
			return e.c.BV(8, uint64(d)), max(d+1, 2)
		}
	}
	return nil, 0
}

func (e *Exec) mergeBool(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	return e.c.Ite(c, a, b)
}

// mergeTerm is ite(c, a, b), built segment by segment where a and b agree on
// parts of their bits.
func (e *Exec) mergeTerm(c, a, b *Term) *Term {
	if a == b || a.w == 0 || a.w == 1 {
		return e.c.Ite(c, a, b)
	}
	set := map[int]bool{}
	segBounds(a, set)
	segBounds(b, set)
	if a.isConst() && b.isConst() {
		x := e.c.BvXor(a, b)
		for _, k := range constRuns(x, 8) {
			set[k] = true
		}
	}
	if len(set) == 0 || len(set) > 300 {
		return e.c.Ite(c, a, b)
	}
	var parts []*Term
	lo := 0
	for k := 1; k <= a.w; k++ {
		if k < a.w && !set[k] {
			continue
		}
		parts = append(parts, e.c.Ite(c, e.c.Extract(k-1, lo, a), e.c.Extract(k-1, lo, b)))
		lo = k
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return e.c.Concat(parts...)
}
