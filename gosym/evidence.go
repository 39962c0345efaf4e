package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"gosym/exec"
	"gosym/run"
)

func floatNote(x uint64) string {
	if x>>32 == 0 {
		return ""
	}
	return fmt.Sprint(math.Float64frombits(x))
}

func writeEvidence(home, prop, tier string, seed int64, p *run.Program, e *exec.Engine, stats []*exec.HStats, viol []exec.Violation, wall time.Duration, budget int) {
	states, trans, valid := 0, int64(0), 0
	complete := true
	var samples []interface{}
	var hs []interface{}
	for _, s := range stats {
		states += s.Paths
		trans += s.Decisions
		valid += s.Validated
		complete = complete && s.Clean()
		for _, x := range s.Samples {
			if len(samples) < 12 {
				in := []string{}
				for i, v := range x.Inputs {
					if i < 24 {
						in = append(in, fmt.Sprintf("%s=%x", x.Labels[i], v))
					}
				}
				samples = append(samples, map[string]interface{}{"harness": s.Name, "path_end": x.End, "solved_inputs": in})
			}
		}
		hs = append(hs, map[string]interface{}{
			"harness": s.Name, "bounds": p.Doc[s.Name], "paths": s.Paths, "explored_completely_within_bounds": s.Clean(), "path_ends": s.Ends, "decisions": s.Decisions,
			"ssa_instructions": s.Steps, "assertions_met": s.Asserts, "assertions_decided_by_solver": s.AssertsSolver, "reached": s.Covers,
			"not_reached": s.Uncovered, "inconclusive": s.Inconclusive, "unsupported": s.Unsupported, "candidates_not_reproduced_natively": s.Unconfirmed,
			"native_runs": s.NativeRuns, "sampled_paths_agreeing_with_native_run": s.Validated, "disagreements": s.Mismatch, "busy_s": round(s.Busy.Seconds()),
		})
	}
	var fl, std []string
	for _, f := range e.FuncList() {
		if strings.Contains(f, "/zzverif/") {
			continue
		}
		if strings.Contains(f, "dmitryikh/leaves") {
			fl = append(fl, strings.Replace(f, "github.com/dmitryikh/", "", 1))
		} else {
			std = append(std, f)
		}
	}
	sort.Strings(std)
	if len(samples) == 0 {
		samples = append(samples, "no path without abstract float arithmetic was sampled in this run")
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall.Seconds()), "violations": len(viol),
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples, "exhaustive": complete && len(viol) == 0,
			"explanation":               "states = symbolic execution paths of the harnesses, transitions = branch and concretisation decisions taken on them; every path stands for all inputs that satisfy its path condition",
			"harnesses":                 hs,
			"functions_encoded":         fl,
			"library_functions_encoded": std,
			"solver":                    map[string]interface{}{"queries": e.Solver.Queries, "seconds": round(e.Solver.Time.Seconds()), "sat": e.Solver.Sat, "unsat": e.Solver.Unsat, "unknown": e.Solver.Unknown},
			"fp_solver":                 map[string]interface{}{"queries": e.FP.Queries, "seconds": round(e.FP.Time.Seconds()), "sat": e.FP.Sat, "unsat": e.FP.Unsat, "unknown": e.FP.Unknown},
			"not_encoded":               p.Dropped,
			"known_findings_met":        e.Known,
			"budget_s":                  budget,
		},
		"assumptions": assumptions,
	}
	dir := filepath.Join(home, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}

func round(f float64) float64 { return math.Round(f*1000) / 1000 }

var assumptions = []string{
	"holds within the stated bounds of each harness only (sizes, counts, step limit); nothing is claimed outside them",
	"go/ssa's lowering and the engine's SSA semantics (amd64, gc) are trusted, checked against native runs of sampled paths",
	"float arithmetic on symbolic operands is uninterpreted up to congruence (plus the lemmas of DESIGN.md); a violation needs a native reproduction",
	"sync, os, encoding/json, fmt, strconv on tokens and a few runtime services are modelled by the engine (DESIGN.md lists them)",
}
