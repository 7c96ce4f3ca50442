package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

func writeEvidence(g *Engine, hs []*Harness, verif, prop, tier string, wall float64) error {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range g.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	per := []map[string]interface{}{}
	for _, h := range hs {
		per = append(per, map[string]interface{}{
			"harness": h.name, "paths": h.st.Paths, "pruned_by_assumptions": h.st.Assumed,
			"assertions": h.st.Asserts, "ssa_steps": h.st.Steps, "witnesses_replayed": h.st.Replayed,
			"labels_reached": h.st.Reached, "cpu_s": float64(h.st.WallNs) / 1e9,
		})
	}
	undec := []map[string]interface{}{}
	for _, k := range sortedKeys(g.undec) {
		undec = append(undec, map[string]interface{}{"what": k, "count": g.undec[k]})
	}
	samples := g.samples
	if samples == nil {
		samples = []map[string]interface{}{}
	}
	cov := map[string]interface{}{
		"states":                        g.paths,
		"transitions":                   g.steps,
		"traces_validated_against_impl": g.replayed,
		"samples":                       samples,
		"what_the_counts_mean":          "states: feasible symbolic paths completed; transitions: SSA instructions executed symbolically; traces: path witnesses (solver models of the path condition) replayed natively with equal observations",
		"functions_encoded":             fns,
		"paths_pruned_by_assumptions":   g.assumed,
		"paths_incomplete":              g.incomplete,
		"assertions_checked":            g.asserts,
		"assertions_by_simplification":  g.trivial,
		"assertion_queries_unsat":       g.assertUnsat,
		"assertion_queries_sat":         g.assertSat,
		"assertion_queries_unknown":     g.assertUnknown,
		"solver_queries":                g.st.queries,
		"solver_sat":                    g.st.qSat,
		"solver_unsat":                  g.st.qUnsat,
		"solver_unknown":                g.st.qUnknown,
		"solver_cache_hits":             g.st.cacheHits,
		"solver_s":                      float64(g.st.solverNs) / 1e9,
		"solver_longest_s":              float64(g.st.maxNs) / 1e9,
		"harnesses":                     per,
		"undecided":                     undec,
		"all_paths_decided":             len(g.undec) == 0,
		"bounds":                        bounds[prop],
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": len(g.viols),
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"math/big.Float, math/big.Int and fmt are replaced by models (symex/bigfloat.go, bigint.go, fmtmodel.go); every completed path is checked against the real libraries on one solver-chosen witness",
	"the Go compiler and go/ssa agree on the meaning of the source; amd64, 64-bit int",
	"z3, and z3-new and cvc5 where z3 gives up, decide QF_BV correctly",
}

const (
	allPatterns = "none: every bit pattern is covered; each path is a class of patterns and the paths are exhaustive"
	anyBig      = "arguments: any sign, every exponent of big.Float (math.MinInt32..math.MaxInt32), any precision, rounding mode and recorded accuracy, mantissas of up to 512 bits (quick) or 2048 bits (thorough) that fit the precision. Outside: wider mantissas"
	distances   = "every mantissa and sign; by the distance between the exponents of the parts: two normals within 130 and 26 larger ones (quick), all (thorough); a normal and a subnormal 10 distances (quick), 45 (thorough); two subnormals, 4 lengths of the high part (quick), all (thorough); zeros, infinities, NaNs: all"
	ppcBig      = "arguments as for the other formats, mantissas of up to 192 bits (quick) or 400 bits (thorough) where both parts are formed, 110 bits (quick) where the high part is subnormal. Outside: wider mantissas"
)

// What each check covers; anything else is outside.
var bounds = map[string]string{
	"C01": allPatterns, "C02": allPatterns, "C03": allPatterns, "C04": allPatterns,
	"C05": distances, "C17": distances,
	"C06": anyBig, "C08": anyBig, "C10": anyBig, "C22": anyBig, "C12": ppcBig,
	"C07": "none: every float64 and float32", "C09": "none: every float64 and float32",
	"C11": "none: every float64 and float32", "C13": "none: every float64 and float32",
	"C14": allPatterns, "C15": allPatterns, "C16": allPatterns, "C18": allPatterns,
	"C19": "half, quadruple, x86: every bit pattern; double-double, by the distance between the exponents of the parts: two normals 53..110 and 17 larger ones (quick), all (thorough); a normal and a subnormal 10 distances (quick), 160 (thorough); zero low part: every high part",
	"C20": "sequences of two calls with the result of the first changed in between (value, sign, precision and mode); arguments with mantissas of 64 to 192 bits, 72 bits for double-double",
	"C21": "none for special values: any precision, mode, accuracy and NaN payload",
	"C23": "none: every float64, float32 and binary16",
	"C24": "pairs of arguments of any exponents in or below the normal range with mantissas as in C06, C08 and C10; negation: mantissas of 64 (half), 192 (quad), 128 (x86), 72 (double-double) bits",
	"C25": "none: every 64-bit integer in every base; buffers of three symbolic bytes with and without spare capacity; five invalid bases",
	"C26": "none for values of the formats; doubles rounded to half or single: all that overflow or underflow, and for five exponents those that round to a normal number (single, quick: to windows of 500 of them); precisions -1 and 5; buffers as in C25; infinities and NaNs in six formats with precisions -1, 0 and 3",
	"C27": "half: all values; shortest in e, f, g, and per exponent one precision of four (quick) or eleven precisions (thorough) for each of e, f, g. Single and double, 64-bit arithmetic: all mantissas of some exponents (see C27_Short32, C27_Fixed32, C27_Fixed64, C27_Table64, C27_Subnormal32; thorough: of all exponents), windows of 2^8 (thorough 2^12) adjacent mantissas for C27_Short64. Single and double, decimal arithmetic: windows of 2^2 to 2^8 (thorough 2^12) mantissas at the places the harnesses name. Outside: the other mantissas and exponents of singles and doubles, and the precisions that are not named",
}
