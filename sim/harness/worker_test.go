package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"verifsim/simcase"
	"verifsim/simrt"
)

func TestWorker(t *testing.T) {
	loadSites()
	log.SetOutput(io.Discard)
	raw, err := os.ReadFile(os.Getenv("VSIM_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	var job simcase.Job
	if err := json.Unmarshal(raw, &job); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(98)
	}
	out := work(t, &job)
	b, _ := json.Marshal(out)
	if err := os.WriteFile(job.Out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(98)
	}
	os.Exit(0)
}

func progress(job *simcase.Job, i int64) {
	// the orchestrator reads this when a worker dies
	os.WriteFile(job.Out+".at", []byte(fmt.Sprint(i)), 0o644)
}

func summarize(i int64, r *RunResult) simcase.RunSummary {
	s := simcase.RunSummary{Index: i, Seed: r.Seed, HarnessErr: r.HarnessErr, Hash: r.Hash, Trace: r.Trace, Outcome: r.Outcome, Steps: r.Steps, SimNs: r.SimNs, Switches: r.Switches}
	for _, v := range r.Violations {
		s.Violations = append(s.Violations, simcase.Violation(v))
	}
	return s
}

func work(t *testing.T, job *simcase.Job) *simcase.JobResult {
	start := time.Now()
	res := &simcase.JobResult{Probes: map[string]int64{}, Faults: map[string]int64{}, KnownHits: map[string]int64{}}
	defer func() { res.WallMs = time.Since(start).Milliseconds() }()
	if job.Mode == "list" {
		for p := range scenarios {
			res.Props = append(res.Props, p)
		}
		sort.Strings(res.Props)
		return res
	}
	s := scenarios[job.Prop]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown property", job.Prop)
		os.Exit(98)
	}
	res.Rule = s.Rule
	raceAt := simrt.RaceErrors()
	races := newRaceLog()
	switch job.Mode {
	case "batch":
		seen := map[uint64]bool{}
		deadline := start.Add(time.Duration(job.WallMs) * time.Millisecond)
		lastProgress := time.Now()
		each := os.Getenv("VSIM_EACH") != ""
		for i := job.From; i < job.To; i += job.Step {
			if job.WallMs > 0 && res.Runs%8 == 0 && time.Now().After(deadline) {
				break
			}
			if res.Runs == 0 || each || time.Since(lastProgress) > 200*time.Millisecond {
				lastProgress = time.Now()
				progress(job, i)
			}
			seed := SeedFor(job.Base, job.Prop, i)
			it := simcase.Item{Case: GenCase(s, seed, job.Thorough)}
			r := RunOne(t, s, it, false)
			res.LastIndex = i
			res.Runs++
			res.Steps += r.Steps
			res.Switches += r.Switches
			res.Preempts += r.Preempts
			res.Advances += r.Advances
			res.Tasks += int64(r.Tasks)
			res.Foreign += int64(r.Foreign)
			res.SimS += float64(r.SimNs) / 1e9
			res.Evals += r.Evals
			for k, v := range r.Probes {
				res.Probes[k] += v
			}
			for k, v := range r.Faults {
				res.Faults[k] += v
			}
			if job.KeepHash {
				res.Hashes = append(res.Hashes, r.Hash)
			}
			if r.Evals > 0 && (r.Preempts > 0 || len(r.Faults) > 0 || r.Advances > 0) {
				res.NonTrivial++
				h := r.ILHash ^ it.Case.Hash()*31
				if !seen[h] {
					seen[h] = true
					res.Distinct = append(res.Distinct, h)
				}
			}
			if n := simrt.RaceErrors(); n > raceAt {
				raceAt = n
				if m := races.next(); m != "" {
					r.Violations = append(r.Violations, Violation{"data-race", m})
				}
			}
			if len(r.Violations) > 0 {
				var left []Violation
				for _, v := range r.Violations {
					hit := false
					for _, k := range job.Known {
						if k.Class == v.Class && strings.Contains(v.Msg, k.Contains) {
							res.KnownHits[k.What]++
							hit = true
						}
					}
					if !hit {
						left = append(left, v)
					}
				}
				r.Violations = left
			}
			if len(r.Violations) > 0 || r.HarnessErr != "" {
				sm := summarize(i, r)
				it.Decisions = r.Decisions
				it.Scheduled = true
				sm.Item = &it
				res.Failures = append(res.Failures, sm)
				if len(res.Failures) >= 1 {
					break
				}
			}
			if len(res.Samples) < 2 && r.Preempts > 3 {
				sm := summarize(i, r)
				d := r.Decisions
				if len(d) > 12 {
					d = d[:12]
				}
				sm.Item = &simcase.Item{Case: it.Case, Decisions: d}
				res.Samples = append(res.Samples, sm)
			}
		}
	case "items":
		for i, it := range job.Items {
			progress(job, int64(i))
			last := i == len(job.Items)-1
			r := RunOne(t, s, it, job.Verbose && last)
			if n := simrt.RaceErrors(); n > raceAt {
				raceAt = n
				if m := races.next(); m != "" {
					r.Violations = append(r.Violations, Violation{"data-race", m})
				}
			}
			sm := summarize(int64(i), r)
			it.Decisions = r.Decisions
			it.Scheduled = true
			sm.Item = &it
			res.Results = append(res.Results, sm)
			res.Runs++
		}
	case "gen":
		for i := job.From; i < job.To; i += job.Step {
			it := simcase.Item{Case: GenCase(s, SeedFor(job.Base, job.Prop, i), job.Thorough)}
			res.Results = append(res.Results, simcase.RunSummary{Index: i, Item: &it})
		}
	case "shrink":
		sh, n := simcase.Shrink(job.Items[0], func(it simcase.Item) (bool, []simcase.Decision) {
			r := RunOne(t, s, it, false)
			return hasClass(r, job.Class), r.Decisions
		}, time.Duration(job.WallMs)*time.Millisecond, job.MaxTries)
		res.Shrunk, res.ShrinkTry = &sh, n
	}
	res.RaceErrors = simrt.RaceErrors()
	return res
}

func hasClass(r *RunResult, class string) bool {
	if r.HarnessErr != "" {
		return false
	}
	for _, v := range r.Violations {
		if v.Class == class {
			return true
		}
	}
	return false
}
