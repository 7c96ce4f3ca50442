package main

// SMT-LIB2 printing and solver processes.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats are shared by all workers of a check.
type Stats struct {
	queries, qSat, qUnsat, qUnknown, cacheHits int64
	branchQ, assertQ, otherQ                   int64
	solverNs                                   int64
	maxNs                                      int64
	fallback                                   int64
	linear                                     int64 // decided in integer arithmetic
	termNodes                                  int64
}

type cacheEnt struct {
	r  Result
	m  map[int]*big.Int // by variable order index
	to time.Duration    // for Unknown: the limit that was used up
}

type QueryCache struct {
	mu sync.Mutex
	m  map[[32]byte]cacheEnt
}

type Proc struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	n    int
	mu   sync.Mutex
}

func (p *Proc) start() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cmd = exec.Command(p.name, p.args...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.cmd.Stderr = nil
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.in, p.out = in, bufio.NewReaderSize(out, 1<<16)
	p.n = 0
	return nil
}

// kill ends the process, if any, from another goroutine.
func (p *Proc) kill() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
	}
}

func (p *Proc) stop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

type Solver struct {
	hard  time.Time // no answers after this
	main  *Proc
	alt   []*Proc
	st    *Stats
	cache *QueryCache
	dump  string
	// integer arithmetic, tried first in linear mode
	lin    []*Proc
	linear bool
}

func NewSolver(st *Stats, cache *QueryCache) *Solver {
	return &Solver{
		main: &Proc{name: "z3", args: []string{"-in", "-smt2", "-memory:3000"}},
		alt:  []*Proc{{name: "z3-new", args: []string{"-in", "-smt2", "-memory:3000"}}, {name: "cvc5", args: []string{"--lang=smt2", "--produce-models", "--bitblast=eager"}}},
		lin: []*Proc{{name: "cvc5", args: []string{"--lang=smt2", "--produce-models"}},
			{name: "z3", args: []string{"-in", "-smt2", "-memory:3000"}},
			{name: "z3-new", args: []string{"-in", "-smt2", "-memory:3000"}}},
		st:    st,
		cache: cache,
	}
}

func (s *Solver) Close() {
	s.main.stop()
	for _, a := range append(append([]*Proc{}, s.alt...), s.lin...) {
		a.stop()
	}
}

// script renders assertions as SMT-LIB2 and returns the variables in order of
// first occurrence. Naming is by traversal order, so equal structures give
// equal text.
type printer struct {
	sb   strings.Builder
	id   map[*Term]int
	vars []*Term
	fp   bool
}

func hexBV(t *Term) string {
	if t.w%4 == 0 {
		if t.w <= 64 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.u)
		}
		return fmt.Sprintf("#x%0*x", t.w/4, t.b)
	}
	if t.w <= 64 {
		return fmt.Sprintf("#b%0*b", t.w, t.u)
	}
	s := t.b.Text(2)
	return "#b" + strings.Repeat("0", t.w-len(s)) + s
}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (p *printer) ref(t *Term) string {
	if t.isConst() {
		if t.w == 0 {
			if t.u == 1 {
				return "true"
			}
			return "false"
		}
		return hexBV(t)
	}
	n, ok := p.id[t]
	if !ok {
		panic("unprinted")
	}
	if t.op == OpVar {
		return fmt.Sprintf("v%d", n)
	}
	return fmt.Sprintf("t%d", n)
}

func (p *printer) visit(t *Term) {
	if t.isConst() {
		return
	}
	if _, ok := p.id[t]; ok {
		return
	}
	for _, a := range t.args {
		p.visit(a)
	}
	n := len(p.id)
	p.id[t] = n
	if t.op == OpVar {
		p.vars = append(p.vars, t)
		fmt.Fprintf(&p.sb, "(declare-const v%d %s)\n", n, sortOf(t))
		if lo, hi, ok := t.rng(); ok {
			lob, hib := new(big.Int).SetInt64(lo), new(big.Int).SetInt64(hi)
			m := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
			lob.Mod(lob, m)
			hib.Mod(hib, m)
			fmt.Fprintf(&p.sb, "(assert (and (bvsle (_ bv%v %d) v%d) (bvsle v%d (_ bv%v %d))))\n", lob, t.w, n, n, hib, t.w)
		}
		return
	}
	fmt.Fprintf(&p.sb, "(define-fun t%d () %s ", n, sortOf(t))
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&p.sb, "((_ extract %d %d) %s)", int(t.u)+t.w-1, t.u, p.ref(t.args[0]))
	case OpSext:
		fmt.Fprintf(&p.sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, p.ref(t.args[0]))
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFSqrt:
		p.fp = true
		e, m := 11, 53
		if t.w == 32 {
			e, m = 8, 24
		}
		op := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div", OpFSqrt: "fp.sqrt"}[t.op]
		fmt.Fprintf(&p.sb, "(fp.to_ieee_bv (%s RNE", op)
		for _, a := range t.args {
			fmt.Fprintf(&p.sb, " ((_ to_fp %d %d) %s)", e, m, p.ref(a))
		}
		p.sb.WriteString("))")
	default:
		nm, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprintf("print op %d", t.op))
		}
		// n-ary bvadd / concat are chained
		if (t.op == OpAdd || t.op == OpConcat) && len(t.args) > 2 {
			for i := 0; i < len(t.args)-1; i++ {
				p.sb.WriteString("(" + nm + " " + p.ref(t.args[i]) + " ")
			}
			p.sb.WriteString(p.ref(t.args[len(t.args)-1]))
			p.sb.WriteString(strings.Repeat(")", len(t.args)-1))
		} else {
			p.sb.WriteString("(" + nm)
			for _, a := range t.args {
				p.sb.WriteString(" " + p.ref(a))
			}
			p.sb.WriteString(")")
		}
	}
	p.sb.WriteString(")\n")
}

func render(asserts []*Term) *printer {
	p := &printer{id: map[*Term]int{}}
	for _, a := range asserts {
		p.visit(a)
		fmt.Fprintf(&p.sb, "(assert %s)\n", p.ref(a))
	}
	return p
}

func (s *Solver) late() bool { return !s.hard.IsZero() && time.Now().After(s.hard) }

// Check decides the conjunction. On Sat the model covers the variables that occur.
func (s *Solver) Check(asserts []*Term, timeout time.Duration) (Result, Model) {
	var as []*Term
	for _, a := range asserts {
		if a.isFalse() {
			return Unsat, nil
		}
		if !a.isTrue() {
			as = append(as, a)
		}
	}
	p := render(as)
	text := p.sb.String()
	key := sha256.Sum256([]byte(text))
	s.cache.mu.Lock()
	ent, hit := s.cache.m[key]
	s.cache.mu.Unlock()
	if hit && ent.r == Unknown && ent.to < timeout {
		hit = false
	}
	if !hit && s.late() {
		return Unknown, nil
	}
	if !hit {
		t0 := time.Now()
		r, m := Unknown, map[int]*big.Int(nil)
		enc := false
		if s.linear {
			enc, r, m = s.runLinear(as, p, text, timeout)
		}
		if r == Unknown && enc && p.bits() > smallInput {
			t := timeout / 2
			r, m = s.run(s.main, text, p.logic(), p.names(), t)
		} else if r == Unknown && !enc {
			r, m = s.run(s.main, text, p.logic(), p.names(), timeout)
		}
		if r == Unknown && !enc {
			for _, a := range s.alt {
				if p.fp && a.name == "cvc5" {
					continue
				}
				atomic.AddInt64(&s.st.fallback, 1)
				if r, m = s.run(a, text, p.logic(), p.names(), timeout); r != Unknown {
					break
				}
			}
		}
		d := time.Since(t0).Nanoseconds()
		atomic.AddInt64(&s.st.queries, 1)
		atomic.AddInt64(&s.st.solverNs, d)
		atomic.AddInt64(&s.st.termNodes, int64(len(p.id)))
		for {
			o := atomic.LoadInt64(&s.st.maxNs)
			if d <= o || atomic.CompareAndSwapInt64(&s.st.maxNs, o, d) {
				break
			}
		}
		switch r {
		case Sat:
			atomic.AddInt64(&s.st.qSat, 1)
		case Unsat:
			atomic.AddInt64(&s.st.qUnsat, 1)
		default:
			atomic.AddInt64(&s.st.qUnknown, 1)
		}
		ent = cacheEnt{r: r, m: m}
		if r == Unknown {
			ent.to = timeout
		}
		s.cache.mu.Lock()
		s.cache.m[key] = ent
		s.cache.mu.Unlock()
		if s.dump != "" && (r == Unknown || d > 2e9) {
			os.WriteFile(fmt.Sprintf("%s/q%x.smt2", s.dump, key[:6]), []byte(text+"(check-sat)\n"), 0o644)
			if t, ok := newIntEnc().script(as); ok {
				os.WriteFile(fmt.Sprintf("%s/q%x.lia", s.dump, key[:6]), []byte("(set-logic QF_LIA)\n"+t+"(check-sat)\n"), 0o644)
			}
		}
	} else {
		atomic.AddInt64(&s.st.cacheHits, 1)
	}
	if ent.r != Sat {
		return ent.r, nil
	}
	m := Model{}
	for i, v := range p.vars {
		if x := ent.m[i]; x != nil {
			m[v.name] = x
		}
	}
	return Sat, m
}

func (p *printer) logic() string {
	if p.fp {
		return "QF_BVFP"
	}
	return "QF_BV"
}

func (p *printer) names() (r []string) {
	for _, v := range p.vars {
		r = append(r, p.ref(v))
	}
	return r
}

// smallInput is the number of input bits up to which a query in linear mode is
// also put to the bit-vector solvers, for at least smallTimeout.
const (
	smallInput   = 16
	smallTimeout = 10 * time.Second
)

func (p *printer) bits() (n int) {
	for _, v := range p.vars {
		n += v.w
	}
	return n
}

// runLinear decides the integer form of the problem, if it has one.
func (s *Solver) runLinear(as []*Term, p *printer, bv string, timeout time.Duration) (bool, Result, map[int]*big.Int) {
	enc := newIntEnc()
	text, ok := enc.script(as)
	if !ok {
		return false, Unknown, nil
	}
	atomOf := map[*Term]string{}
	for i, v := range enc.vars {
		atomOf[v] = fmt.Sprintf("i%d", enc.vatom[i])
	}
	for v, i := range enc.boolID {
		atomOf[v] = fmt.Sprintf("v%d", i)
	}
	var names []string
	var at []int
	for i, v := range p.vars {
		if n, ok := atomOf[v]; ok {
			names = append(names, n)
			at = append(at, i)
		}
	}
	done := func(r Result, m map[int]*big.Int) (bool, Result, map[int]*big.Int) {
		atomic.AddInt64(&s.st.linear, 1)
		mm := map[int]*big.Int{}
		for i, v := range m {
			mm[at[i]] = v
		}
		return true, r, mm
	}
	// the relaxation to the reals first; then the integer problem, by one after
	// the other for a short time, then by all at once
	lra := 5 * time.Second
	if p.bits() <= smallInput {
		lra = time.Second
	}
	real := strings.ReplaceAll(text, " Int)", " Real)")
	if r, _ := s.run(s.lin[0], real, "QF_LRA", nil, lra); r == Unsat {
		return done(r, nil)
	}
	// few inputs: to the bit-vector solvers, and a branch has more time
	short := 150 * time.Millisecond
	few := p.bits() <= smallInput
	for _, a := range s.lin {
		if r, m := s.run(a, text, "QF_LIA", names, short); r != Unknown {
			return done(r, m)
		}
	}
	if few {
		for _, a := range []*Proc{s.alt[0], s.main} {
			if r, m := s.run(a, bv, p.logic(), p.names(), 4*short); r != Unknown {
				return true, r, m
			}
		}
		if timeout < smallTimeout {
			timeout = smallTimeout
		}
	}
	if timeout <= 4*short {
		return true, Unknown, nil
	}
	type ans struct {
		r   Result
		m   map[int]*big.Int
		lin bool
	}
	ch := make(chan ans, len(s.lin)+2)
	procs := append([]*Proc{}, s.lin...)
	for _, a := range s.lin {
		go func(a *Proc) {
			r, m := s.run(a, text, "QF_LIA", names, timeout)
			ch <- ans{r, m, true}
		}(a)
	}
	if few {
		for _, a := range []*Proc{s.main, s.alt[0]} {
			procs = append(procs, a)
			go func(a *Proc) {
				r, m := s.run(a, bv, p.logic(), p.names(), timeout)
				ch <- ans{r, m, false}
			}(a)
		}
	}
	res := ans{}
	for range procs {
		x := <-ch
		if x.r != Unknown && res.r == Unknown {
			res = x
			for _, a := range procs {
				a.kill()
			}
		}
	}
	if res.r == Unknown || !res.lin {
		return true, res.r, res.m
	}
	return done(res.r, res.m)
}

// grace is what a solver gets beyond its own timeout before it is ended.
func grace(timeout time.Duration) time.Duration {
	if timeout < 2*time.Second {
		return 500 * time.Millisecond
	}
	return 10 * time.Second
}

// run asks p, and for the values of names if the answer is sat.
func (s *Solver) run(p *Proc, text, logic string, names []string, timeout time.Duration) (Result, map[int]*big.Int) {
	if p.cmd == nil || p.n > 2000 {
		p.stop()
		if err := p.start(); err != nil {
			p.cmd = nil
			return Unknown, nil
		}
	}
	p.n++
	var sb strings.Builder
	if strings.HasPrefix(p.name, "z3") {
		sb.WriteString("(reset)\n")
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
	} else {
		sb.WriteString("(reset)\n(set-option :produce-models true)\n")
		fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n", timeout.Milliseconds())
	}
	sb.WriteString("(set-logic " + logic + ")\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n(echo \"@@1\")\n")
	// a watchdog: solvers occasionally ignore their own limit
	timer := time.AfterFunc(timeout+grace(timeout), p.kill)
	defer timer.Stop()
	go io.WriteString(p.in, sb.String())
	res := Unknown
	bad := false
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			p.stop()
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if strings.Contains(line, "@@1") {
			break
		}
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case strings.HasPrefix(line, "(error"):
			bad = true
		}
	}
	if bad {
		return Unknown, nil
	}
	if res != Sat || len(names) == 0 {
		return res, nil
	}
	sb.Reset()
	sb.WriteString("(get-value (")
	for _, v := range names {
		sb.WriteString(v + " ")
	}
	sb.WriteString("))\n(echo \"@@2\")\n")
	io.WriteString(p.in, sb.String())
	var out strings.Builder
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			p.stop()
			return Unknown, nil
		}
		if strings.Contains(line, "@@2") {
			break
		}
		if strings.HasPrefix(strings.TrimSpace(line), "(error") {
			bad = true
		}
		out.WriteString(line)
	}
	if bad {
		return Unknown, nil
	}
	m := map[int]*big.Int{}
	idx := map[string]int{}
	for i, v := range names {
		idx[v] = i
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(out.String()))
	for i := 0; i+1 < len(toks); i++ {
		k, ok := idx[toks[i]]
		if !ok {
			continue
		}
		v := toks[i+1]
		x := new(big.Int)
		switch {
		case v == "true":
			x.SetInt64(1)
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			x.SetString(v[2:], 16)
		case strings.HasPrefix(v, "#b"):
			x.SetString(v[2:], 2)
		case v == "_" && strings.HasPrefix(toks[i+2], "bv"):
			x.SetString(toks[i+2][2:], 10)
		case v == "-":
			i++
			if _, ok := x.SetString(toks[i+1], 10); !ok {
				return Unknown, nil
			}
			x.Neg(x)
		default:
			if _, ok := x.SetString(v, 10); !ok {
				return Unknown, nil
			}
		}
		m[k] = x
		i++
	}
	return Sat, m
}
