package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mewmew/float"

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "symex: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("property", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification tree")
	tierS := flag.String("tier", "", "quick or thorough")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("budget", 0, "seconds for exploration")
	only := flag.String("only", "", "regexp of harness names")
	dbg := flag.Bool("debug", false, "trace paths")
	evid := flag.Bool("evidence", true, "write the evidence file")
	replay := flag.String("replay", "", "replay a recorded violation file natively and exit")
	maxViol := flag.Int("maxviol", 1, "stop after this many violations")
	prof := flag.String("cpuprofile", "", "")
	self := flag.String("selftest", "", "terms or float: compare the simplifier or the math/big model with the real thing")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *self != "" {
		selftest(*self)
		return
	}
	t0 := time.Now()
	tier := *tierS
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	work, err := os.MkdirTemp("", "symex-")
	if err != nil {
		fatal("%v", err)
	}
	code := run(*prop, *repo, *verif, tier, *workers, *budget, *only, *dbg, *evid, *replay, *maxViol, work, t0)
	os.RemoveAll(work)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

var hname = regexp.MustCompile(`^C\d\d_`)

func run(prop, repo, verif, tier string, workers, budget int, only string, dbg, evid bool, replay string, maxViol int, work string, t0 time.Time) int {
	ov, err := overlayFiles(verif, repo, nil)
	if err != nil {
		fatal("%v", err)
	}
	src := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			fatal("%v", err)
		}
		src[k] = b
	}
	delete(src, filepath.Join(repo, "zzverif", "run", "main.go"))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: src}
	ps, err := packages.Load(cfg, "./zzverif/h")
	if err != nil {
		fatal("loading %s: %v", repo, err)
	}
	if n := packages.PrintErrors(ps); n > 0 {
		fatal("%d errors while loading", n)
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	var all []string
	var hs []*Harness
	re := regexp.MustCompile(only)
	for name, m := range spkgs[0].Members {
		f, ok := m.(*ssa.Function)
		if !ok || !hname.MatchString(name) {
			continue
		}
		all = append(all, name)
		if (prop == "" || strings.HasPrefix(name, prop+"_")) && re.MatchString(name) {
			hs = append(hs, &Harness{name: name, fn: f})
		}
	}
	sort.Strings(all)
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	bin, err := buildRunner(work, repo, modPath, ov, all)
	if err != nil {
		fatal("%v", err)
	}
	if replay != "" {
		return doReplay(bin, replay)
	}
	if len(hs) == 0 {
		fatal("no harness for property %q", prop)
	}
	g := newEngine(prog, modPath)
	g.runnerBin = bin
	g.debug = dbg
	g.maxViol = maxViol
	if v, err := time.ParseDuration(os.Getenv("SYMEX_ASSERT_TIMEOUT")); err == nil {
		g.assertTimeout = v
	}
	if tier == "thorough" {
		g.tier = 1
		g.assertTimeout = 300 * time.Second
		g.branchTimeout = 60 * time.Second
		g.maxConc = 20000
	}
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 6 * 3600
		}
	}
	g.deadline = t0.Add(time.Duration(budget) * time.Second)
	known, kerr := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	if kerr != nil {
		fatal("%v", kerr)
	}
	g.known = known
	g.explore(hs, workers)

	// vacuity: every harness must complete a path, and every label named in the harness must have been reached
	for _, h := range hs {
		if h.st.Paths == 0 && len(g.viols) == 0 {
			g.addUndec(h.name + ": no path was completed")
		}
		for _, l := range reachLabels(h.fn) {
			if h.st.Reached[l] == 0 && len(g.viols) == 0 {
				g.addUndec(h.name + ": label " + l + " was not reached")
			}
		}
	}
	wall := time.Since(t0).Seconds()
	printSummary(g, hs, prop, wall)
	for _, k := range sortedKeys(g.findings) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	code := 0
	replayPath := ""
	for _, v := range g.viols {
		code = 1
		replayPath = saveReplay(verif, prop, tier, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		fmt.Printf("  harness %s: %s\n  inputs: %s\n  native replay: %s\n", v.Harness, v.Msg, fmtInputs(v.Inputs, v.Order), v.Native)
	}
	if evid && prop != "" {
		if err := writeEvidence(g, hs, verif, prop, tier, wall); err != nil {
			fatal("%v", err)
		}
	}
	return code
}

// reachLabels collects the vsym.Reach labels used by a harness and the harness
// package functions it calls.
func reachLabels(f *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := c.Call.StaticCallee()
				if cal == nil || cal.Pkg == nil {
					continue
				}
				if strings.HasSuffix(cal.Pkg.Pkg.Path(), "/zzverif/vsym") && cal.Name() == "Reach" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						s := k.Value.ExactString()
						out = append(out, strings.Trim(s, `"`))
					}
				} else if cal.Pkg == f.Pkg {
					walk(cal)
				}
			}
		}
	}
	walk(f)
	return out
}

func printSummary(g *Engine, hs []*Harness, prop string, wall float64) {
	fmt.Printf("%s: %d harnesses, %d paths (%d pruned by assumptions, %d incomplete), %d assertions (%d by simplification), %d witnesses replayed\n",
		prop, len(hs), g.paths, g.assumed, g.incomplete, g.asserts, g.trivial, g.replayed)
	fmt.Printf("%s: %d solver queries (%d sat, %d unsat, %d unknown; %d cached), solver %.1fs (longest %.2fs), wall %.1fs\n",
		prop, g.st.queries, g.st.qSat, g.st.qUnsat, g.st.qUnknown, g.st.cacheHits, float64(g.st.solverNs)/1e9, float64(g.st.maxNs)/1e9, wall)
	for _, h := range hs {
		fmt.Printf("  %-28s paths %d assumed %d asserts %d replayed %d time %.1fs\n", h.name, h.st.Paths, h.st.Assumed, h.st.Asserts, h.st.Replayed, float64(h.st.WallNs)/1e9)
	}
	for _, k := range sortedKeys(g.undec) {
		fmt.Printf("UNDECIDED (%d): %s\n", g.undec[k], k)
	}
	for _, k := range sortedKeys(g.spurious) {
		fmt.Printf("NOT-REPRODUCED (%d): %s\n", g.spurious[k], k)
	}
	for _, m := range g.mismatch {
		fmt.Printf("MISMATCH: %s\n", m)
	}
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Tier     string            `json:"tier"`
	Message  string            `json:"message"`
	Native   string            `json:"native"`
	Inputs   map[string]string `json:"inputs"`
	Order    []string          `json:"order"`
}

func saveReplay(verif, prop, tier string, v *Violation) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+"-"+v.Harness+".json")
	b, _ := json.MarshalIndent(replayFile{prop, v.Harness, tier, v.Msg, v.Native, v.Inputs, v.Order}, "", "  ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func doReplay(bin, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	tier := 0
	if r.Tier == "thorough" {
		tier = 1
	}
	n := &Runner{bin: bin}
	defer n.Close()
	res := n.Run(r.Harness, tier, r.Inputs)
	fmt.Printf("%s: %s %s\n", r.Harness, res.Status, res.Msg)
	for _, o := range res.Obs {
		fmt.Println("  " + o)
	}
	if res.Status == "ok" {
		return 0
	}
	return 1
}

// loadKnown reads the known-findings file. Lines:
//
//	finding: property=C05 harness=NAME message="..." inputs="a#0=1 b#0=2" -- what fails
//	fixed: property=C06 <commit> what failed
//
// A finding matches a violation with the same harness, message and exact inputs.
func loadKnown(path, prop string) (func(*Violation) string, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	type kf struct{ harness, msg, inputs, what string }
	var ks []kf
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) message="([^"]*)" inputs="([^"]*)" -- (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil || m[1] != prop {
			continue
		}
		ks = append(ks, kf{m[2], m[3], m[4], m[5]})
	}
	return func(v *Violation) string {
		for _, k := range ks {
			if k.harness == v.Harness && k.msg == v.Msg && k.inputs == fmtInputs(v.Inputs, v.Order) {
				return k.what
			}
		}
		return ""
	}, nil
}
