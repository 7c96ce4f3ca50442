package main

// Path exploration state: path condition, model, decisions.

import (
	"fmt"
	"go/token"
	"math/big"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	side   bool
	forced bool     // the other side was shown infeasible (nothing to assume)
	val    *big.Int // candidate value for concretisation decisions
	n      int      // choice value for Choose
}

type Item struct {
	dec   []Dec
	model Model
	h     *Harness
	maybe bool // the model is not known to follow dec
}

type input struct {
	name string // unique name: "x#0"
	t    *Term  // symbolic value, or constant for choices
}

type obsRec struct {
	name string
	t    *Term
}

// digHint says that a character term is the digit d of some base.
type digHint struct {
	d    *Term
	base int
}

type Exec struct {
	eng  *Engine
	c    *Ctx
	sol  *Solver
	prog *ssa.Program

	item   Item
	di     int
	dec    []Dec // decisions so far (replayed and new)
	pc     []*Term
	known  map[*Term]bool
	eqv    map[*Term]*Term
	model  Model
	ev     *Evaluator
	vsets  map[*Term]map[*Term]bool
	forked []Item

	globals map[*ssa.Global]ptr
	inited  map[*ssa.Package]bool
	inInit  int
	fr      *frame
	pos     token.Pos
	depth   int
	steps   int

	inputs     []input
	occ        map[string]int
	obs        []obsRec
	reached    map[string]bool
	asserts    int
	trivial    int
	undec      []string
	onceDone   map[ptr]bool
	side       map[interface{}]interface{}
	nConc      int
	digOf      map[*Term]digHint
	spec       *specState
	fresh      map[*Value]bool
	mergedArr  []*Value
	forks      map[ssa.Instruction]int
	noMerge    map[ssa.Instruction]bool
	outcome    map[string]bool // see setOutcome
	linearMode bool
	maybe      bool // no witness of this path is known
	aliasBad   bool
	// aliasHint is a condition under which a write through shared storage shows
	aliasHint *Term
	nat       *Runner
}

func newExec(eng *Engine, sol *Solver, it Item) *Exec {
	e := &Exec{eng: eng, sol: sol, prog: eng.prog, item: it, c: NewCtx(),
		known: map[*Term]bool{}, eqv: map[*Term]*Term{}, vsets: map[*Term]map[*Term]bool{},
		globals: map[*ssa.Global]ptr{}, inited: map[*ssa.Package]bool{}, occ: map[string]int{},
		reached: map[string]bool{}, onceDone: map[ptr]bool{}, side: map[interface{}]interface{}{}, digOf: map[*Term]digHint{},
		forks: map[ssa.Instruction]int{}, noMerge: map[ssa.Instruction]bool{}}
	e.setModel(it.model)
	e.maybe = it.maybe
	return e
}

func (e *Exec) setModel(m Model) {
	if m == nil {
		m = Model{}
	}
	e.model = m
	e.ev = NewEvaluator(e.c, m)
}

func (e *Exec) vars(t *Term) map[*Term]bool {
	if s, ok := e.vsets[t]; ok {
		return s
	}
	var s map[*Term]bool
	if t.op == OpVar {
		s = map[*Term]bool{t: true}
	} else if len(t.args) == 1 {
		s = e.vars(t.args[0])
	} else {
		s = map[*Term]bool{}
		for _, a := range t.args {
			for v := range e.vars(a) {
				s[v] = true
			}
		}
	}
	e.vsets[t] = s
	return s
}

// cone returns the path-condition conjuncts that share variables, directly or
// transitively, with the goal.
func (e *Exec) cone(goal *Term) []*Term {
	in := map[*Term]bool{}
	for v := range e.vars(goal) {
		in[v] = true
	}
	used := make([]bool, len(e.pc))
	for changed := true; changed; {
		changed = false
		for i, a := range e.pc {
			if used[i] {
				continue
			}
			for v := range e.vars(a) {
				if in[v] {
					used[i] = true
					break
				}
			}
			if used[i] {
				changed = true
				for v := range e.vars(a) {
					in[v] = true
				}
			}
		}
	}
	var r []*Term
	for i, a := range e.pc {
		if used[i] {
			r = append(r, a)
		}
	}
	return append(r, goal)
}

// check decides PC ∧ goal; on Sat the returned model extends the current one.
func (e *Exec) check(goal *Term, timeout time.Duration) (Result, Model) {
	if goal.isFalse() {
		return Unsat, nil
	}
	if !e.maybe && e.ev.Eval(goal).isTrue() {
		return Sat, e.model
	}
	e.sol.linear = e.linearMode
	if e.linearMode && timeout == e.eng.branchTimeout {
		timeout = linearBranchTimeout
	}
	r, m := e.sol.Check(e.cone(goal), timeout)
	if r != Sat {
		return r, nil
	}
	nm := Model{}
	for k, v := range e.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm
}

func (e *Exec) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OpAnd {
		e.addPC(t.args[0])
		e.addPC(t.args[1])
		return
	}
	if v, ok := e.known[t]; ok && v {
		return
	}
	e.note(t, true)
	e.pc = append(e.pc, t)
}

func (e *Exec) note(t *Term, v bool) {
	if t.op == OpNot {
		t, v = t.args[0], !v
	}
	e.known[t] = v
	e.known[e.c.Not(t)] = !v
	if v && t.op == OpEq && t.args[0].w > 0 {
		if t.args[0].isConst() {
			e.eqv[t.args[1]] = t.args[0]
		} else if t.args[1].isConst() {
			e.eqv[t.args[0]] = t.args[1]
		}
	}
}

func (e *Exec) fork(d Dec, m Model) {
	dec := append(append([]Dec{}, e.dec...), d)
	e.forked = append(e.forked, Item{dec: dec, model: m, h: e.item.h, maybe: e.maybe})
}

// In linear mode a branch that is not decided in time is taken on both sides:
// what is shown on a path that cannot happen does no harm. Such a path has no
// witness (maybe) until some later query finds one.
const linearBranchTimeout = 500 * time.Millisecond

// found takes m as the witness of this path if it satisfies its condition.
func (e *Exec) found(m Model, more *Term) bool {
	ev := NewEvaluator(e.c, m)
	for _, a := range append(append([]*Term{}, e.pc...), more) {
		if !ev.Eval(a).isTrue() {
			return false
		}
	}
	return true
}

// witness looks for a witness of a path that has none yet.
func (e *Exec) witness() Result {
	if !e.maybe {
		return Sat
	}
	e.sol.linear = true
	r, m := e.sol.Check(e.pc, e.eng.assertTimeout)
	if r == Sat && e.found(m, e.c.T) {
		e.setModel(m)
		e.maybe = false
	}
	return r
}

// decideMaybe decides c on a path without a witness: which sides are possible.
func (e *Exec) decideMaybe(c *Term) bool {
	r1, m1 := e.check(c, e.eng.branchTimeout)
	r0, m0 := e.check(e.c.Not(c), e.eng.branchTimeout)
	e.eng.countBranch()
	ok1 := r1 == Sat && e.found(m1, c)
	ok0 := r0 == Sat && e.found(m0, e.c.Not(c))
	if r1 == Unsat && r0 == Unsat {
		panic(pathStop{"infeasible", ""})
	}
	side := r1 != Unsat && (ok1 || !ok0)
	if r1 == Unsat || r0 == Unsat {
		e.dec = append(e.dec, Dec{side: side, forced: true})
		e.note(c, side)
	} else {
		m, ok := m0, ok0
		if !side {
			m, ok = m1, ok1
		}
		if !ok {
			m = e.model
		}
		e.fork(Dec{side: !side}, m)
		e.forked[len(e.forked)-1].maybe = !ok
		e.dec = append(e.dec, Dec{side: side})
		e.addPC(e.lit(c, side))
	}
	if side && ok1 {
		e.setModel(m1)
		e.maybe = false
	} else if !side && ok0 {
		e.setModel(m0)
		e.maybe = false
	}
	return side
}

func (e *Exec) lit(c *Term, side bool) *Term {
	if side {
		return c
	}
	return e.c.Not(c)
}

// decide is the common core of branching: mk builds the condition from an
// optional recorded candidate value.
func (e *Exec) decide(cand func() *big.Int, mk func(v *big.Int) *Term) (bool, *big.Int) {
	if e.spec != nil {
		if cand != nil {
			panic(specAbort{})
		}
		return e.specDecide(mk(nil)), nil
	}
	if e.di < len(e.item.dec) {
		d := e.item.dec[e.di]
		e.di++
		e.dec = append(e.dec, d)
		c := mk(d.val)
		if !d.forced {
			if c.isConst() && c.isTrue() != d.side {
				panic(pathStop{"internal", "replay diverged" + e.where()})
			}
			e.addPC(e.lit(c, d.side))
		} else if !c.isConst() {
			e.note(c, d.side)
		}
		return d.side, d.val
	}
	var v *big.Int
	if cand != nil {
		switch e.witness() {
		case Unsat:
			panic(pathStop{"infeasible", ""})
		case Unknown:
			panic(pathStop{"cap", "no witness for a value" + e.where()})
		}
		if e.maybe {
			panic(pathStop{"cap", "no witness for a value" + e.where()})
		}
		v = cand()
	}
	c := mk(v)
	if e.maybe && !c.isConst() {
		return e.decideMaybe(c), v
	}
	if c.isConst() {
		// constant under a candidate: nothing to record
		e.dec = append(e.dec, Dec{side: c.isTrue(), forced: true, val: v})
		return c.isTrue(), v
	}
	side := e.ev.Eval(c).isTrue()
	other := e.lit(c, !side)
	r, m := e.check(other, e.eng.branchTimeout)
	e.eng.countBranch()
	switch r {
	case Sat:
		e.fork(Dec{side: !side, val: v}, m)
		e.dec = append(e.dec, Dec{side: side, val: v})
		e.addPC(e.lit(c, side))
	case Unsat:
		e.dec = append(e.dec, Dec{side: side, forced: true, val: v})
		e.note(c, side)
	default:
		if e.linearMode {
			e.fork(Dec{side: !side, val: v}, e.model)
			e.forked[len(e.forked)-1].maybe = true
		} else {
			e.undec = append(e.undec, "branch feasibility not decided"+e.where())
		}
		e.dec = append(e.dec, Dec{side: side, val: v})
		e.addPC(e.lit(c, side))
	}
	return side, v
}

// branch follows one side of a condition, scheduling the other if feasible.
func (e *Exec) branch(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if v, ok := e.known[c]; ok {
		return v
	}
	if c.op == OpNot {
		return !e.branch(c.args[0])
	}
	// small conjunctions and disjunctions are decided one conjunct at a time:
	// the resulting path conditions are simpler
	if (c.op == OpAnd || c.op == OpOr) && leaves(c, 8) > 8 {
		s, _ := e.decide(nil, func(*big.Int) *Term { return c })
		return s
	}
	if c.op == OpAnd {
		return e.branch(c.args[0]) && e.branch(c.args[1])
	}
	if c.op == OpOr {
		return e.branch(c.args[0]) || e.branch(c.args[1])
	}
	s, _ := e.decide(nil, func(*big.Int) *Term { return c })
	return s
}

// branchWhole is branch without splitting the condition.
func (e *Exec) branchWhole(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if v, ok := e.known[c]; ok {
		return v
	}
	s, _ := e.decide(nil, func(*big.Int) *Term { return c })
	return s
}

// leaves counts the conjuncts and disjuncts of c, up to about limit.
func leaves(c *Term, limit int) int {
	switch {
	case limit < 0:
		return 1
	case c.op == OpNot && c.args[0].w == 0:
		return leaves(c.args[0], limit)
	case c.op == OpAnd || c.op == OpOr:
		n := leaves(c.args[0], limit)
		return n + leaves(c.args[1], limit-n)
	}
	return 1
}

// conc forks over the possible values of t and returns the value on this path.
func (e *Exec) conc(t *Term) uint64 {
	if t.w > 64 {
		e.unsupported("concretising a wide value")
	}
	for i := 0; ; i++ {
		if t.isConst() {
			return t.u
		}
		if k, ok := e.eqv[t]; ok {
			return k.u
		}
		if i > e.eng.maxConc {
			panic(pathStop{"cap", "too many values for one term" + e.where()})
		}
		ok, v := e.decide(func() *big.Int { return e.ev.Eval(t).big() },
			func(v *big.Int) *Term { return e.c.Eq(t, e.c.BVBig(t.w, v)) })
		if ok {
			r := e.c.BVBig(t.w, v)
			e.eqv[t] = r
			return r.u
		}
	}
}

// clz forks over the number of leading zeros of v (v must be non-zero).
func (e *Exec) clz(v *Term) int {
	k := 0
	for k < v.w {
		b := e.c.Extract(v.w-1-k, v.w-1-k, v)
		if !b.isConst() {
			break
		}
		if b.u == 1 {
			return k
		}
		k++
	}
	lead := func(n int) *Term {
		return e.c.Eq(e.c.Extract(v.w-1, v.w-1-n, v), e.c.BVBig(n+1, bigOne))
	}
	for {
		ok, n := e.decide(func() *big.Int {
			x := e.ev.Eval(v).big()
			return big.NewInt(int64(v.w - x.BitLen()))
		}, func(n *big.Int) *Term {
			if int(n.Int64()) >= v.w {
				return e.c.Eq(v, e.c.BVBig(v.w, new(big.Int)))
			}
			return lead(int(n.Int64()))
		})
		if ok {
			return int(n.Int64())
		}
	}
}

// choose forks n ways over lo..hi without the solver.
func (e *Exec) choose(lo, hi int) int {
	e.specStop()
	if e.di < len(e.item.dec) {
		d := e.item.dec[e.di]
		e.di++
		e.dec = append(e.dec, d)
		return d.n
	}
	for k := hi; k > lo; k-- {
		e.fork(Dec{n: k, forced: true}, e.model)
	}
	e.dec = append(e.dec, Dec{n: lo, forced: true})
	return lo
}

func (e *Exec) newVar(name string, w int, ranged bool, lo, hi int64) *Term {
	n := e.uniq(name)
	var t *Term
	if ranged {
		t = e.c.VarRange(n, w, lo, hi)
	} else {
		t = e.c.Var(n, w)
	}
	e.inputs = append(e.inputs, input{n, t})
	return t
}

func (e *Exec) uniq(name string) string {
	k := e.occ[name]
	e.occ[name]++
	return fmt.Sprintf("%s#%d", name, k)
}

// assume restricts the path; it stops the path if the condition cannot hold.
func (e *Exec) assume(c *Term) {
	e.specStop()
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathStop{"assume", ""})
	}
	if v, ok := e.known[c]; ok {
		if !v {
			panic(pathStop{"assume", ""})
		}
		return
	}
	// Assumptions make no decision entry: they are re-evaluated on replay, where
	// the item's model already satisfies them.
	if e.maybe || !e.ev.Eval(c).isTrue() {
		r, m := e.check(c, e.eng.branchTimeout)
		if r == Unsat {
			panic(pathStop{"assume", ""})
		}
		if e.linearMode && r == Unknown || e.maybe && !e.found(m, c) {
			e.maybe = true
			e.addPC(c)
			return
		}
		e.maybe = false
		if r == Unknown {
			e.undec = append(e.undec, "assumption not decided"+e.where())
			panic(pathStop{"assume", "undecided"})
		}
		e.setModel(m)
	}
	e.addPC(c)
}

// assert is the property check.
func (e *Exec) assert(c *Term, msg string) {
	e.specStop()
	e.asserts++
	if v, ok := e.known[c]; ok && v {
		c = e.c.T
	}
	if c.isTrue() {
		e.trivial++
		return
	}
	r, m := e.check(e.c.Not(c), e.eng.assertTimeout)
	if r == Sat && e.maybe && !e.found(m, e.c.Not(c)) {
		// the rest of the path condition has to hold with it
		r, m = e.sol.Check(append(append([]*Term{}, e.pc...), e.c.Not(c)), e.eng.assertTimeout)
		if r == Sat && !e.found(m, e.c.Not(c)) {
			r = Unknown
		}
	}
	e.eng.countAssert(r)
	switch r {
	case Unsat:
		e.note(c, true)
		return
	case Unknown:
		e.undec = append(e.undec, "assertion not decided: "+msg+e.where())
		if e.eng.debug {
			fmt.Fprintln(os.Stderr, "UNKNOWN", msg)
		}
		return
	}
	e.candidate(m, msg)
	// continue on the side where the assertion holds, if any
	e.assume(c)
}

// candidate hands a counterexample to the engine for native replay.
func (e *Exec) candidate(m Model, msg string) {
	e.eng.candidate(e, m, msg)
}

// inputVals evaluates the recorded inputs under a model (in hex).
func (e *Exec) inputVals(m Model) (map[string]string, []string) {
	ev := NewEvaluator(e.c, m)
	r := map[string]string{}
	var order []string
	for _, in := range e.inputs {
		order = append(order, in.name)
		r[in.name] = fmt.Sprintf("%x", ev.Eval(in.t).big())
		if in.t.w == 0 {
			r[in.name] = "0"
			if ev.Eval(in.t).isTrue() {
				r[in.name] = "1"
			}
		}
	}
	return r, order
}
