package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(prop, tier string, seed int64, reps []*harnessReport, encoded map[string]bool, problems []string, viol *Cand, wall time.Duration) {
	var paths, dec, replayed, q, asserts, proved, trivial, unknown, steps int64
	var solver float64
	var samples []any
	complete := len(problems) == 0 && len(reps) > 0
	for _, r := range reps {
		paths += r.Paths
		dec += r.Decisions
		steps += r.Steps
		replayed += int64(r.Replayed)
		q += r.Queries
		asserts += r.Asserts
		proved += r.Proved
		trivial += r.Trivial
		unknown += r.Unknown
		solver += r.SolverS
		complete = complete && r.Complete
		for i, s := range r.samples {
			if s == nil || i >= 2 {
				continue
			}
			samples = append(samples, map[string]any{"harness": r.Harness, "inputs": s.Inputs, "choices": s.Choices, "observed": s.Obs})
		}
	}
	var repo, other []string
	for f := range encoded {
		if strings.Contains(f, "gocraft/health") && !strings.Contains(f, "zzverif") {
			repo = append(repo, strings.ReplaceAll(f, "github.com/gocraft/health", "health"))
		} else if !strings.Contains(f, "zzverif") {
			other = append(other, f)
		}
	}
	sort.Strings(repo)
	sort.Strings(other)
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   dec,
		"traces_validated_against_impl": replayed,
		"samples":                       samples,
		"exhaustive":                    complete && viol == nil,
		"states_meaning":                "symbolic paths of the harnesses explored to their end, each standing for all inputs that satisfy its path condition",
		"transitions_meaning":           "branch, choice and scheduling decisions taken on those paths",
		"functions_encoded":             repo,
		"library_functions_encoded":     len(other),
		"solver":                        solverBin,
		"queries":                       q,
		"queries_unknown":               unknown,
		"solver_seconds":                solver,
		"assertions":                    asserts,
		"assertions_unsat":              proved,
		"assertions_simplified_to_true": trivial,
		"instructions_executed":         steps,
		"harnesses":                     reps,
	}
	if len(problems) > 0 {
		cov["problems"] = problems
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": 0,
		"assumptions": []string{
			"values outside the bounds listed per harness are not covered",
			"the engine's models of the Go runtime, of the library functions it does not execute from source (listed in DESIGN.md) and of the clock are faithful; sampled paths are replayed on the compiled code in every run",
		},
	}
	if viol != nil {
		ev["violations"] = 1
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, prop+".json"), append(j, '\n'), 0o644)
}
