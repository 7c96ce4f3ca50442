package main

// The explorer: a shared work queue of path prefixes, executed by workers.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Exec, fn *ssa.Function, a []Value) Value

type notHandledT struct{}

var notHandled Value = &notHandledT{}

type Harness struct {
	name string
	fn   *ssa.Function
	st   HarnessStats
}

type HarnessStats struct {
	Paths, Assumed, Steps, Asserts, Trivial, Replayed int64
	Reached                                           map[string]int64
	Labels                                            map[string]bool
	WallNs                                            int64
}

type Violation struct {
	Harness string
	Msg     string
	Inputs  map[string]string
	Order   []string
	Native  string
}

type Engine struct {
	prog          *ssa.Program
	modPath       string
	intr          map[string]intrinsic
	maxSteps      int
	maxConc       int
	maxWidth      int
	branchTimeout time.Duration
	assertTimeout time.Duration
	tier          int
	deadline      time.Time
	st            *Stats
	cache         *QueryCache
	runnerBin     string
	debug         bool
	maxViol       int
	known         func(v *Violation) string
	noNative      bool
	pdMu          sync.Mutex
	pd            map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	busy     int
	stopped  bool
	fns      map[string]bool
	undec    map[string]int
	viols    []*Violation
	findings map[string]int
	spurious map[string]int
	samples  []map[string]interface{}
	mismatch []string

	paths, assumed, incomplete, steps, asserts, trivial, replayed, unwitnessed int64
	branchQ, assertUnsat, assertSat, assertUnknown                             int64
}

func newEngine(prog *ssa.Program, mod string) *Engine {
	g := &Engine{prog: prog, modPath: mod, intr: map[string]intrinsic{}, maxSteps: 2000000, maxConc: 3000, maxWidth: 8192,
		branchTimeout: 20 * time.Second, assertTimeout: 100 * time.Second, st: &Stats{},
		cache: &QueryCache{m: map[[32]byte]cacheEnt{}}, fns: map[string]bool{}, undec: map[string]int{},
		findings: map[string]int{}, spurious: map[string]int{}, maxViol: 1, pd: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	g.cond = sync.NewCond(&g.mu)
	g.registerAll()
	return g
}

func (g *Engine) registerAll() {
	e := (*Exec)(nil)
	e.registerFloat(g.intr)
	e.registerInt(g.intr)
	e.registerIntText(g.intr)
	e.registerMisc(g.intr)
	e.registerFmt(g.intr)
	e.registerVsym(g.intr)
}

func (g *Engine) countBranch() { atomic.AddInt64(&g.branchQ, 1) }

func (g *Engine) countAssert(r Result) {
	switch r {
	case Sat:
		atomic.AddInt64(&g.assertSat, 1)
	case Unsat:
		atomic.AddInt64(&g.assertUnsat, 1)
	default:
		atomic.AddInt64(&g.assertUnknown, 1)
	}
}

func (g *Engine) isTarget(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return path == g.modPath || strings.HasPrefix(path, g.modPath+"/") && !strings.Contains(path, "/zzverif/")
}

// eager: packages of the code under test are initialised before their first function runs.
func (g *Engine) eager(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return path == g.modPath || strings.HasPrefix(path, g.modPath+"/")
}

func (g *Engine) noteFn(f *ssa.Function) {
	if f.Pkg == nil || !g.isTarget(f.Pkg) || f.Name() == "init" {
		return
	}
	k := f.String()
	g.mu.Lock()
	g.fns[k] = true
	g.mu.Unlock()
}

// mkError makes an error value of type *errors.errorString.
func (g *Engine) mkError(e *Exec, msg string) ifaceV {
	return e.mkErrorStr(lit(msg))
}

func (e *Exec) mkErrorStr(s *Str) ifaceV {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			t := p.Type("errorString")
			if t == nil {
				break
			}
			c := new(Value)
			*c = structV{s}
			return ifaceV{t: types.NewPointer(t.Type()), v: c}
		}
	}
	e.unsupported("error value")
	return ifaceV{}
}

func (g *Engine) push(items []Item) {
	if len(items) == 0 {
		return
	}
	g.mu.Lock()
	g.queue = append(g.queue, items...)
	g.mu.Unlock()
	g.cond.Broadcast()
}

func (g *Engine) pop() (Item, bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for {
		if g.stopped {
			return Item{}, false
		}
		if n := len(g.queue); n > 0 {
			it := g.queue[n-1]
			g.queue[n-1] = Item{}
			g.queue = g.queue[:n-1]
			g.busy++
			return it, true
		}
		if g.busy == 0 {
			g.cond.Broadcast()
			return Item{}, false
		}
		g.cond.Wait()
	}
}

func (g *Engine) done() {
	g.mu.Lock()
	g.busy--
	if g.busy == 0 && len(g.queue) == 0 {
		g.cond.Broadcast()
	}
	g.mu.Unlock()
}

func (g *Engine) stop() {
	g.mu.Lock()
	g.stopped = true
	g.mu.Unlock()
	g.cond.Broadcast()
}

func (g *Engine) addUndec(msg string) {
	g.mu.Lock()
	g.undec[msg]++
	g.mu.Unlock()
}

// explore runs the harnesses to completion (or to the deadline).
func (g *Engine) explore(hs []*Harness, workers int) {
	for _, h := range hs {
		h.st.Reached = map[string]int64{}
		g.queue = append(g.queue, Item{h: h})
	}
	// first harness first
	for i, j := 0, len(g.queue)-1; i < j; i, j = i+1, j-1 {
		g.queue[i], g.queue[j] = g.queue[j], g.queue[i]
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol := NewSolver(g.st, g.cache)
			sol.dump = os.Getenv("SYMEX_DUMP")
			sol.hard = g.deadline.Add(20 * time.Second)
			defer sol.Close()
			nat := &Runner{bin: g.runnerBin}
			defer nat.Close()
			for {
				it, ok := g.pop()
				if !ok {
					return
				}
				if time.Now().After(g.deadline) {
					g.addUndec("time budget used up before every path was explored (" + it.h.name + ")")
					g.done()
					continue
				}
				g.runPath(sol, nat, it)
				g.done()
			}
		}()
	}
	wg.Wait()
}

func (g *Engine) runPath(sol *Solver, nat *Runner, it Item) {
	t0 := time.Now()
	e := newExec(g, sol, it)
	e.nat = nat
	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case pathStop:
				kind, msg = x.kind, x.msg
			case targetPanic:
				kind, msg = "panic", x.msg
			default:
				kind, msg = "internal", fmt.Sprint(r)
				if g.debug {
					msg += "\n" + string(debug.Stack())
				}
				if e.fr != nil {
					msg += e.where()
				}
			}
		}()
		e.callFn(it.h.fn, nil, nil)
	}()
	g.push(e.forked)
	st := &it.h.st
	atomic.AddInt64(&st.WallNs, time.Since(t0).Nanoseconds())
	atomic.AddInt64(&g.steps, int64(e.steps))
	atomic.AddInt64(&g.asserts, int64(e.asserts))
	atomic.AddInt64(&g.trivial, int64(e.trivial))
	atomic.AddInt64(&st.Steps, int64(e.steps))
	atomic.AddInt64(&st.Asserts, int64(e.asserts))
	for _, u := range e.undec {
		g.addUndec(it.h.name + ": " + u)
	}
	if g.debug {
		vals, names := e.inputVals(e.model)
		desc := ""
		for i := 0; i < len(names) && i < 3; i++ {
			desc += names[i] + "=" + vals[names[i]] + " "
		}
		fmt.Fprintf(os.Stderr, "path %s %s%s %s dec=%d steps=%d forks=%d %v\n", it.h.name, desc, kind, msg, len(e.dec), e.steps, len(e.forked), time.Since(t0).Round(time.Millisecond))
	}
	switch kind {
	case "assume":
		atomic.AddInt64(&st.Assumed, 1)
		atomic.AddInt64(&g.assumed, 1)
		return
	case "infeasible":
		return
	case "panic":
		switch e.witness() {
		case Unsat:
			return
		case Unknown:
			g.addUndec(it.h.name + ": a path to a panic is not decided: " + msg)
			return
		}
		g.candidate(e, e.model, "panic: "+msg)
		atomic.AddInt64(&st.Paths, 1)
		atomic.AddInt64(&g.paths, 1)
		return
	}
	atomic.AddInt64(&st.Paths, 1)
	atomic.AddInt64(&g.paths, 1)
	g.mu.Lock()
	for l := range e.reached {
		st.Reached[l]++
	}
	g.mu.Unlock()
	if kind != "done" {
		atomic.AddInt64(&g.incomplete, 1)
		g.addUndec(it.h.name + ": " + kind + ": " + msg)
	}
	model := e.model
	if e.aliasBad {
		if e.aliasHint != nil {
			if r, m := e.check(e.aliasHint, g.assertTimeout); r == Sat {
				model = m
			} else if r == Unsat && kind == "done" {
				e.aliasBad = false
			}
		}
		if e.aliasBad {
			g.addUndec(it.h.name + ": a value sharing mantissa storage with another is modified")
		}
	}
	if e.maybe {
		atomic.AddInt64(&g.unwitnessed, 1)
		return
	}
	if g.noNative {
		return
	}
	// replay a witness of this path natively
	in, order := e.inputVals(model)
	res := nat.Run(it.h.name, g.tier, in)
	switch res.Status {
	case "ok":
		if kind == "done" && !e.aliasBad {
			if d := e.cmpObs(model, res.Obs); d != "" {
				g.mu.Lock()
				if len(g.mismatch) < 20 {
					g.mismatch = append(g.mismatch, it.h.name+": "+d+" inputs "+fmtInputs(in, order))
				}
				g.mu.Unlock()
				g.addUndec(it.h.name + ": the model and the real run disagree on an observation")
				return
			}
			atomic.AddInt64(&g.replayed, 1)
			atomic.AddInt64(&st.Replayed, 1)
			g.sample(it.h.name, in, order, res)
		}
	case "fail", "panic", "hang":
		g.violation(&Violation{Harness: it.h.name, Msg: res.Msg, Inputs: in, Order: order, Native: res.Status + ": " + res.Msg})
	default:
		g.mu.Lock()
		if len(g.mismatch) < 20 {
			g.mismatch = append(g.mismatch, it.h.name+": native "+res.Status+" "+res.Msg+" inputs "+fmtInputs(in, order))
		}
		g.mu.Unlock()
		g.addUndec(it.h.name + ": a path witness did not replay (" + res.Status + ")")
	}
}

func fmtInputs(in map[string]string, order []string) string {
	var s []string
	for _, k := range order {
		s = append(s, k+"="+in[k])
	}
	return strings.Join(s, " ")
}

func (g *Engine) sample(h string, in map[string]string, order []string, res *Result1) {
	g.mu.Lock()
	defer g.mu.Unlock()
	n := 0
	for _, s := range g.samples {
		if s["harness"] == h {
			n++
		}
	}
	if n >= 3 || len(g.samples) >= 40 {
		return
	}
	s := map[string]interface{}{"harness": h, "inputs": fmtInputs(in, order), "native": res.Status}
	if len(res.Obs) > 0 {
		s["observed"] = strings.Join(res.Obs, " ")
	}
	g.samples = append(g.samples, s)
}

// candidate replays a counterexample natively; only a reproduced one counts.
func (g *Engine) candidate(e *Exec, m Model, msg string) {
	in, order := e.inputVals(m)
	h := e.item.h.name
	if g.noNative {
		g.violation(&Violation{Harness: h, Msg: msg, Inputs: in, Order: order, Native: "not replayed"})
		return
	}
	res := e.nat.Run(h, g.tier, in)
	if g.debug {
		fmt.Fprintf(os.Stderr, "candidate %s %q %s -> %s %s\n", h, msg, fmtInputs(in, order), res.Status, res.Msg)
	}
	if res.Status == "fail" || res.Status == "panic" || res.Status == "hang" {
		g.violation(&Violation{Harness: h, Msg: msg, Inputs: in, Order: order, Native: res.Status + ": " + res.Msg})
		return
	}
	g.mu.Lock()
	g.spurious[h+": "+msg+" ["+fmtInputs(in, order)+"] native: "+res.Status+" "+res.Msg]++
	g.mu.Unlock()
	g.addUndec(h + ": a counterexample did not reproduce natively: " + msg)
}

func (g *Engine) violation(v *Violation) {
	if g.known != nil {
		if k := g.known(v); k != "" {
			g.mu.Lock()
			g.findings[k]++
			g.mu.Unlock()
			return
		}
	}
	g.mu.Lock()
	g.viols = append(g.viols, v)
	n := len(g.viols)
	g.mu.Unlock()
	if n >= g.maxViol {
		g.stop()
	}
}

func (e *Exec) cmpObs(m Model, native []string) string {
	ev := NewEvaluator(e.c, m)
	if len(native) != len(e.obs) {
		return fmt.Sprintf("%d observations, native made %d", len(e.obs), len(native))
	}
	for i, o := range e.obs {
		v := ev.Eval(o.t)
		var s string
		if o.t.w == 0 {
			s = "0"
			if v.isTrue() {
				s = "1"
			}
		} else {
			s = fmt.Sprintf("%x", v.big())
		}
		if s = o.name + "=" + s; s != native[i] {
			return fmt.Sprintf("model %s, native %s", s, native[i])
		}
	}
	return ""
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
