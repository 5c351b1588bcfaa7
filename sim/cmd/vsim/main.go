// vsim builds the simulator from the current tree of /repo, runs seeded
// simulations deciding one property, minimises and replays what fails, and
// writes the evidence file.
//
//	vsim check C05        (VERIF_SEED, VERIF_TIER from the environment)
//	vsim replay FILE
//	vsim selftest [-runs N] [C05 ...]
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/instr"
	"verifsim/simcase"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var (
	repoDir  = "/repo"
	verifDir = env("VERIF_DIR", "/verif")
	simDir   = filepath.Join(verifDir, "sim")
	tmpDir   string
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: error: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if tmpDir != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(tmpDir)
	}
}

type builder struct {
	ins    *instr.Result
	plain  string
	race   string
	mu     sync.Mutex
	buildS float64
}

func (b *builder) instrument() {
	if b.ins != nil {
		return
	}
	r, err := instr.Run(repoDir, tmpDir)
	if err != nil {
		fatal("cannot instrument %s: %v", repoDir, err)
	}
	b.ins = r
}

func (b *builder) worker(race bool) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.instrument()
	p := &b.plain
	if race {
		p = &b.race
	}
	if *p != "" {
		return *p
	}
	start := time.Now()
	out := filepath.Join(tmpDir, "worker.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", b.ins.Overlay}
	if race {
		out = filepath.Join(tmpDir, "worker.race.test")
		args[len(args)-1] = raceOverlay(b.ins.Overlay)
		args = append(args, "-race")
		// only the scheduler: instantiations of generic code in packages compiled
		// without instrumentation could replace the instrumented ones
		args = append(args, "-gcflags=verifsim/simrt=-race=false")
	}
	args = append(args, "-o", out, "./harness")
	cmd := exec.Command("go", args...)
	cmd.Dir = simDir
	if race {
		// without it, packages compiled without instrumentation allocate memory
		// in a way which leaves the detector's records of its former use behind
		cmd.Env = append(os.Environ(), "GOEXPERIMENT=nosizespecializedmalloc")
	}
	if o, err := cmd.CombinedOutput(); err != nil {
		fatal("cannot build the simulator: %v\n%s", err, o)
	}
	b.buildS += time.Since(start).Seconds()
	*p = out
	return out
}

// raceOverlay adds a sync.Pool which never keeps anything to the overlay. In
// race builds the original drops items at random, and every reuse orders the
// two users, so that races would be found or not by chance.
func raceOverlay(overlay string) string {
	var ov struct{ Replace map[string]string }
	data, err := os.ReadFile(overlay)
	if err == nil {
		err = json.Unmarshal(data, &ov)
	}
	if err != nil {
		fatal("overlay: %v", err)
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal("go env GOROOT: %v", err)
	}
	pool := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
	src, err := os.ReadFile(pool)
	if err != nil {
		fatal("%v", err)
	}
	const was = "if runtime_randn(4) == 0 {"
	if !strings.Contains(string(src), was) {
		return overlay
	}
	mine := filepath.Join(tmpDir, "sync_pool.go")
	os.WriteFile(mine, []byte(strings.Replace(string(src), was, "if true || runtime_randn(4) == 0 {", 1)), 0o644)
	ov.Replace[pool] = mine
	data, _ = json.Marshal(ov)
	out := filepath.Join(tmpDir, "overlay.race.json")
	if err := os.WriteFile(out, data, 0o644); err != nil {
		fatal("%v", err)
	}
	return out
}

var jobN int
var jobMu sync.Mutex

type wres struct {
	res    *simcase.JobResult
	exit   int
	stderr string
	at     int64
}

func (b *builder) run(race bool, job simcase.Job, procs int, each bool) wres {
	w := b.worker(race)
	jobMu.Lock()
	jobN++
	base := filepath.Join(tmpDir, fmt.Sprintf("job%d", jobN))
	jobMu.Unlock()
	job.Out = base + ".out"
	d, _ := json.Marshal(job)
	if err := os.WriteFile(base+".json", d, 0o644); err != nil {
		fatal("%v", err)
	}
	errf, _ := os.Create(base + ".err")
	cmd := exec.Command(w, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VSIM_JOB="+base+".json", "VSIM_SITES="+filepath.Join(tmpDir, "sites.txt"),
		"GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=all", "GODEBUG=", "GOGC=200",
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+base+".race", "VSIM_RACELOG="+base+".race")
	if each {
		cmd.Env = append(cmd.Env, "VSIM_EACH=1")
	}
	cmd.Stdout = errf
	cmd.Stderr = errf
	cmd.Dir = tmpDir
	err := cmd.Run()
	errf.Close()
	r := wres{}
	if err != nil {
		r.exit = 1
		if ee, ok := err.(*exec.ExitError); ok {
			r.exit = ee.ExitCode()
		}
	}
	eb, _ := os.ReadFile(base + ".err")
	r.stderr = string(eb)
	if a, err := os.ReadFile(job.Out + ".at"); err == nil {
		r.at, _ = strconv.ParseInt(string(a), 10, 64)
	}
	if data, err := os.ReadFile(job.Out); err == nil && r.exit == 0 {
		r.res = &simcase.JobResult{}
		if err := json.Unmarshal(data, r.res); err != nil {
			fatal("bad worker output: %v", err)
		}
	} else if r.exit == 0 {
		r.exit = 96
	}
	for _, s := range []string{".out", ".out.at", ".json", ".err"} {
		os.Remove(base + s)
	}
	return r
}

// Replay file.
type replayFile struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Message  string         `json:"message"`
	Seed     int64          `json:"verif_seed"`
	Index    int64          `json:"run_index"`
	Race     bool           `json:"race_build"`
	Note     string         `json:"note"`
	Items    []simcase.Item `json:"items"` // executed in order in one process; the last one fails
	Trace    []string       `json:"trace"`
}

type tierCfg struct {
	runs   int64
	wallMs int64
}

func knownFindings(prop string) (ks []simcase.Known) {
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: "); ok {
			var k simcase.Known
			if err := json.Unmarshal([]byte(rest), &k); err != nil {
				fatal("known_findings.txt: %v", err)
			}
			if k.Property == prop {
				ks = append(ks, k)
			}
		}
	}
	return ks
}

func isKnown(ks []simcase.Known, v simcase.Violation) bool {
	for _, k := range ks {
		if k.Class == v.Class && strings.Contains(v.Msg, k.Contains) {
			return true
		}
	}
	return false
}

func main() {
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOSUMDB", "off")
	os.Setenv("GONOSUMDB", "*")
	os.Setenv("GOWORK", "off")
	os.Setenv("CGO_ENABLED", env("CGO_ENABLED", "1"))
	if len(os.Args) < 2 {
		fatal("usage: vsim check|replay|selftest ...")
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "vsim")
	if err != nil {
		fatal("%v", err)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "selftest":
		code = selftest(os.Args[2:])
	default:
		fatal("unknown command %q", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

func check(prop string) int {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		fatal("VERIF_SEED: %v", err)
	}
	fmt.Printf("vsim: property=%s tier=%s VERIF_SEED=%d\n", prop, tier, seed)
	race := raceProps[prop]
	cfg := budget(prop, tier)
	if v := os.Getenv("VSIM_RUNS"); v != "" {
		cfg.runs, _ = strconv.ParseInt(v, 10, 64)
	}
	if v := os.Getenv("VSIM_WALL_MS"); v != "" {
		cfg.wallMs, _ = strconv.ParseInt(v, 10, 64)
	}
	known := knownFindings(prop)
	b := &builder{}
	b.worker(race)
	simStart := time.Now()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	results := make([]wres, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[k] = b.run(race, simcase.Job{Mode: "batch", Prop: prop, Base: seed, Thorough: tier == "thorough",
				From: int64(k), To: cfg.runs, Step: int64(n), WallMs: cfg.wallMs, Known: known}, 2, false)
		}()
	}
	wg.Wait()
	simS := time.Since(simStart).Seconds()
	total := &simcase.JobResult{Probes: map[string]int64{}, Faults: map[string]int64{}, KnownHits: map[string]int64{}}
	distinct := map[uint64]bool{}
	var fails []simcase.RunSummary
	failWorker := map[int64]int{}
	for k, r := range results {
		if r.res == nil {
			f := b.crashed(race, prop, seed, tier, k, n, cfg, r)
			fails = append(fails, f)
			failWorker[f.Index] = k
			continue
		}
		t := r.res
		total.Runs += t.Runs
		total.NonTrivial += t.NonTrivial
		total.Steps += t.Steps
		total.Switches += t.Switches
		total.Preempts += t.Preempts
		total.Advances += t.Advances
		total.Tasks += t.Tasks
		total.Foreign += t.Foreign
		total.SimS += t.SimS
		total.Evals += t.Evals
		total.Rule = t.Rule
		for _, h := range t.Distinct {
			distinct[h] = true
		}
		for k, v := range t.Probes {
			total.Probes[k] += v
		}
		for k, v := range t.Faults {
			total.Faults[k] += v
		}
		for k, v := range t.KnownHits {
			total.KnownHits[k] += v
		}
		total.Samples = append(total.Samples, t.Samples...)
		for _, f := range t.Failures {
			fails = append(fails, f)
			failWorker[f.Index] = k
		}
	}
	sort.Slice(fails, func(i, j int) bool {
		a, c := len(fails[i].Violations) > 0, len(fails[j].Violations) > 0
		if a != c {
			return a
		}
		return fails[i].Index < fails[j].Index
	})
	code := 0
	nviol := 0
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d of %d runs)\n", prop, k.What, total.KnownHits[k.What], total.Runs)
	}
	if len(fails) > 0 {
		f := fails[0]
		if len(f.Violations) == 0 {
			fmt.Fprintf(os.Stderr, "vsim: harness error in run %d (seed %d): %s\n", f.Index, f.Seed, f.HarnessErr)
			cleanup()
			os.Exit(2)
		}
		nviol = len(fails)
		path := b.report(prop, seed, tier, race, f, failWorker[f.Index], n, known)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	writeEvidence(prop, tier, seed, total, len(distinct), nviol, simS, b, time.Since(start).Seconds(), race)
	fmt.Printf("vsim: %s: %d runs, %d checks, %d distinct non-trivial interleavings, %.1fs simulated per run, %.1fs wall (%.1fs build), faults %v\n",
		prop, total.Runs, total.Evals, len(distinct), total.SimS/float64(max(1, total.Runs)), time.Since(start).Seconds(), b.buildS, total.Faults)
	return code
}

// crashed works out which run ended a worker process.
func (b *builder) crashed(race bool, prop string, seed int64, tier string, k, n int, cfg tierCfg, r wres) simcase.RunSummary {
	if r.exit == 97 || r.exit == 98 || r.exit == 96 {
		fatal("worker failed (exit %d): %s", r.exit, tail(r.stderr))
	}
	from := r.at
	r2 := b.run(race, simcase.Job{Mode: "batch", Prop: prop, Base: seed, Thorough: tier == "thorough", From: from, To: cfg.runs, Step: int64(n), WallMs: 60000}, 2, true)
	if r2.res != nil {
		fatal("worker died (exit %d) and the failure does not repeat: %s", r.exit, tail(r.stderr))
	}
	if !strings.Contains(r2.stderr, "ixtendio/gofre") || r2.exit == 97 {
		fatal("worker died (exit %d) in run %d: %s", r2.exit, r2.at, tail(r2.stderr))
	}
	return simcase.RunSummary{Index: r2.at, Violations: []simcase.Violation{{Class: "process-crash", Msg: "the server process dies: " + crashLine(r2.stderr)}}}
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return "unknown"
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

func has(r simcase.RunSummary, class string, known []simcase.Known) (string, bool) {
	for _, v := range r.Violations {
		if v.Class == class && !isKnown(known, v) {
			return v.Msg, true
		}
	}
	return "", false
}

// report reproduces, minimises and writes the replay file.
func (b *builder) report(prop string, seed int64, tier string, race bool, f simcase.RunSummary, k, n int, known []simcase.Known) string {
	class := f.Violations[0].Class
	rf := replayFile{Property: prop, Class: class, Message: f.Violations[0].Msg, Seed: seed, Index: f.Index, Race: race}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, f.Index))
	save := func() string {
		d, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, d, 0o644); err != nil {
			fatal("%v", err)
		}
		fmt.Printf("vsim: run %d (seed %d of VERIF_SEED=%d): %s: %s\n", f.Index, f.Seed, seed, class, rf.Message)
		if rf.Note != "" {
			fmt.Println("vsim:", rf.Note)
		}
		return path
	}
	if f.Item == nil { // the process died
		rf.Note = "the process dies in this run; replay with vsim replay"
		rf.Items = nil
		return save()
	}
	exec1 := func(items []simcase.Item, verbose bool) (simcase.RunSummary, bool) {
		r := b.run(race, simcase.Job{Mode: "items", Prop: prop, Items: items, Verbose: verbose}, 2, false)
		if r.res == nil || len(r.res.Results) == 0 {
			return simcase.RunSummary{}, false
		}
		last := r.res.Results[len(r.res.Results)-1]
		msg, ok := has(last, class, known)
		if ok {
			last.Violations = []simcase.Violation{{Class: class, Msg: msg}}
		}
		return last, ok
	}
	seeded := simcase.Item{Case: f.Item.Case}
	rec := *f.Item
	if _, ok := exec1([]simcase.Item{rec}, false); ok {
		rf.Items = []simcase.Item{rec}
		// minimise
		if race {
			sh, tries := simcase.Shrink(rec, func(it simcase.Item) (bool, []simcase.Decision) {
				s, ok := exec1([]simcase.Item{it}, false)
				if s.Item != nil {
					return ok, s.Item.Decisions
				}
				return false, nil
			}, 45*time.Second, 400)
			rf.Note = fmt.Sprintf("minimised in %d re-executions (one process each)", tries)
			rf.Items = []simcase.Item{sh}
		} else {
			r := b.run(race, simcase.Job{Mode: "shrink", Prop: prop, Items: []simcase.Item{rec}, Class: class, MaxTries: 20000, WallMs: 30000}, 2, false)
			if r.res != nil && r.res.Shrunk != nil {
				if _, ok := exec1([]simcase.Item{*r.res.Shrunk}, false); ok {
					rf.Items = []simcase.Item{*r.res.Shrunk}
					rf.Note = fmt.Sprintf("minimised in %d re-executions", r.res.ShrinkTry)
				}
			}
		}
	} else if _, ok := exec1([]simcase.Item{seeded}, false); ok {
		rf.Items = []simcase.Item{seeded}
		rf.Note = "replays from its seed"
	} else {
		// state kept in package-level variables of the code under test: replay
		// the runs that preceded this one in the same process
		var prefix []simcase.Item
		g := b.run(race, simcase.Job{Mode: "gen", Prop: prop, Base: seed, Thorough: tier == "thorough", From: int64(k), To: f.Index + 1, Step: int64(n)}, 2, false)
		if g.res == nil {
			fatal("cannot regenerate the cases of the batch: %s", tail(g.stderr))
		}
		for _, r := range g.res.Results {
			prefix = append(prefix, *r.Item)
		}
		if _, ok := exec1(prefix, false); !ok {
			rf.Items = []simcase.Item{rec}
			rf.Note = "observed in the search, but re-executions differ: the code under test depends on something outside the simulation"
			return save()
		}
		for len(prefix) > 1 {
			half := prefix[len(prefix)/2:]
			if len(half) == len(prefix) {
				break
			}
			if _, ok := exec1(half, false); !ok {
				break
			}
			prefix = half
		}
		rf.Items = prefix
		rf.Note = fmt.Sprintf("needs the %d runs before it in the same process (state in package-level variables)", len(prefix)-1)
	}
	fin, ok := exec1(rf.Items, true)
	if !ok && len(rf.Items) == 1 {
		rf.Items, rf.Note = []simcase.Item{rec}, "not minimised"
		for i := 0; i < 3 && !ok; i++ {
			fin, ok = exec1(rf.Items, true)
		}
	}
	if !ok {
		rf.Note = "observed in the search, but re-executions differ: the code under test depends on something outside the simulation"
		return save()
	}
	rf.Message = fin.Violations[0].Msg
	rf.Trace = fin.Trace
	return save()
}

func replay(file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fatal("%v", err)
	}
	b := &builder{}
	if len(rf.Items) == 0 {
		r := b.run(rf.Race, simcase.Job{Mode: "batch", Prop: rf.Property, Base: rf.Seed, From: rf.Index, To: rf.Index + 1, Step: 1}, 2, true)
		if r.res == nil {
			fmt.Println(tail(r.stderr))
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			return 1
		}
		fmt.Println("vsim: the recorded violation does not occur on this tree")
		return 0
	}
	r := b.run(rf.Race, simcase.Job{Mode: "items", Prop: rf.Property, Items: rf.Items, Verbose: true}, 2, false)
	if r.res == nil {
		fatal("worker failed: %s", tail(r.stderr))
	}
	last := r.res.Results[len(r.res.Results)-1]
	for _, l := range last.Trace {
		fmt.Println(l)
	}
	if msg, ok := has(last, rf.Class, nil); ok {
		fmt.Printf("vsim: %s: %s\n", rf.Class, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Printf("vsim: the recorded violation does not occur on this tree (outcome %s, violations %v)\n", last.Outcome, last.Violations)
	return 0
}

// selftest proves determinism: every run is executed in two processes with
// different numbers of OS threads and different batch compositions, and the
// event hashes are compared.
func selftest(args []string) int {
	runs := int64(400)
	b := &builder{}
	var props []string
	for i := 0; i < len(args); i++ {
		if args[i] == "-runs" {
			runs, _ = strconv.ParseInt(args[i+1], 10, 64)
			i++
			continue
		}
		props = append(props, args[i])
	}
	if len(props) == 0 {
		r := b.run(false, simcase.Job{Mode: "list"}, 1, false)
		if r.res == nil {
			fatal("worker: %s", r.stderr)
		}
		props = r.res.Props
	}
	bad := 0
	for _, p := range props {
		race := raceProps[p]
		var hs [4][]uint64
		var wg sync.WaitGroup
		for v := 0; v < 4; v++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				procs := []int{1, 2, 4, 8}[v]
				if v%2 == 0 { // one batch
					r := b.run(race, simcase.Job{Mode: "batch", Prop: p, Base: 77, From: 0, To: runs, Step: 1, KeepHash: true}, procs, false)
					if r.res == nil {
						fatal("worker: %s", tail(r.stderr))
					}
					hs[v] = r.res.Hashes
					return
				}
				hs[v] = make([]uint64, 0, runs) // 16 processes, each a stretch
				st := (runs + 15) / 16
				for at := int64(0); at < runs; at += st {
					to := at + st
					if to > runs {
						to = runs
					}
					r := b.run(race, simcase.Job{Mode: "batch", Prop: p, Base: 77, From: at, To: to, Step: 1, KeepHash: true}, procs, false)
					if r.res == nil {
						fatal("worker: %s", tail(r.stderr))
					}
					hs[v] = append(hs[v], r.res.Hashes...)
				}
			}()
		}
		wg.Wait()
		diff := 0
		first := -1
		for i := 0; i < int(runs); i++ {
			for v := 1; v < 4; v++ {
				if i >= len(hs[v]) || i >= len(hs[0]) || hs[v][i] != hs[0][i] {
					diff++
					if first < 0 {
						first = i
					}
					break
				}
			}
		}
		fmt.Printf("selftest %s: %d seeds x 4 executions (34 processes, GOMAXPROCS 1,2,4,8): %d diverge (first %d)\n", p, runs, diff, first)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}
