package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifsim/simcase"
)

// raceProps are decided with the race-instrumented build.
var raceProps = map[string]bool{"C15": true}

func budget(prop, tier string) tierCfg {
	if tier == "thorough" {
		return tierCfg{runs: 1 << 40, wallMs: 8 * 60 * 1000}
	}
	return tierCfg{runs: 400000, wallMs: 16000}
}

func writeEvidence(prop, tier string, seed int64, t *simcase.JobResult, distinct, nviol int, simS float64, b *builder, wall float64, race bool) {
	var samples []any
	for i, s := range t.Samples {
		if i == 3 {
			break
		}
		m := map[string]any{"run_index": s.Index, "seed": fmt.Sprint(s.Seed), "steps": s.Steps, "switches": s.Switches, "outcome": s.Outcome, "simulated_ns": s.SimNs}
		if s.Item != nil {
			m["case"] = s.Item.Case
			m["first_decisions"] = s.Item.Decisions
		}
		samples = append(samples, m)
	}
	if samples == nil {
		samples = []any{}
	}
	perHour := 0.0
	if simS > 0 {
		perHour = float64(t.Runs) / simS * 3600
	}
	cov := map[string]any{
		"evaluations":                t.Runs,
		"distinct_nontrivial":        distinct,
		"rule":                       t.Rule + " A run counts as non-trivial when at least one oracle check was evaluated in it and the scheduler preempted a task, let time jump, or a fault fired; two runs are distinct when their case or their sequence of (task, code site) switches differs.",
		"samples":                    samples,
		"oracle_checks":              t.Evals,
		"runs_per_hour":              int64(perHour),
		"seeds":                      fmt.Sprintf("run i uses seed H(VERIF_SEED=%d, %s, i), one seed per run", seed, prop),
		"simulated_time_s":           t.SimS,
		"steps":                      t.Steps,
		"context_switches":           t.Switches,
		"preemptions":                t.Preempts,
		"time_jumps_while_runnable":  t.Advances,
		"tasks":                      t.Tasks,
		"faults_injected":            t.Faults,
		"rare_conditions_reached":    t.Probes,
		"non_trivial_runs":           t.NonTrivial,
		"instrumented_packages":      b.ins.Packages,
		"yield_sites":                len(b.ins.Sites),
		"real_components":            "every non-main package of the repository's module, rebuilt from its working tree with a yield point before every statement; Go standard library (net/http request and client types, encoding/json, html/template, compress/*)",
		"stub_components":            "net/http server connection and ResponseWriter (model), identity-provider transport, clients, handlers and event generators, distributed cache where the case asks for one; faults of the assets directory (real files below); locks, pools, clocks, math/rand, crypto/rand, map order and select order are replaced by seeded ones",
		"goroutines_adopted_foreign": t.Foreign,
	}
	if race {
		cov["race_detector"] = "go race detector over the simulated schedules; scheduler hand-over hidden from it"
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"statements are atomic with respect to preemption (the race check covers what happens inside them)",
			"the standard library runs real code but is not preempted inside",
			"the connection model follows net/http (see sim/harness/httpsim.go)",
		},
		"wall_s": wall, "violations": nviol,
	}
	d, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(d, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	_ = strings.Join
}
