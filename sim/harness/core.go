// Package harness contains the simulated workloads, the fault models and the
// oracles.
package harness

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifsim/simcase"
	"verifsim/simcrand"
	"verifsim/simrt"
)

type (
	Case = simcase.Case
	Op   = simcase.Op
	Rng  = simrt.Rng
)

// Scenario decides one property.
type Scenario struct {
	Prop string
	// Gen makes a case from the seeded generator.
	Gen func(r *Rng, thorough bool) *Case
	// Run sets the system up and drives the case. It is called by the bubble's
	// root goroutine.
	Run func(e *Env, c *Case)
	// Pol may adjust the scheduling policy.
	Pol func(r *Rng, p *simrt.Policy)
	// Near lets some operations repeat earlier ones with a small difference.
	Near bool
	// Race marks scenarios meant for the race-instrumented build.
	Race bool
	// Rule describes how cases are made and what makes one non-trivial.
	Rule string
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Prop] = s }

// Violation of the property in one run.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// RunResult is what one run produced.
type RunResult struct {
	Seed       uint64             `json:"seed"`
	Violations []Violation        `json:"violations,omitempty"`
	HarnessErr string             `json:"harness_err,omitempty"`
	Outcome    string             `json:"outcome"`
	Steps      int64              `json:"steps"`
	Switches   int64              `json:"switches"`
	Preempts   int64              `json:"preempts"`
	Advances   int64              `json:"advances"`
	Tasks      int                `json:"tasks"`
	Foreign    int                `json:"foreign"`
	SimNs      int64              `json:"sim_ns"`
	Hash       uint64             `json:"hash"`
	ILHash     uint64             `json:"ilhash"`
	Probes     map[string]int64   `json:"probes,omitempty"`
	Faults     map[string]int64   `json:"faults,omitempty"`
	Evals      int64              `json:"evals"`
	Decisions  []simcase.Decision `json:"decisions,omitempty"`
	Trace      []string           `json:"trace,omitempty"`
	NonTrivial bool               `json:"nontrivial"`
}

// Env is what a scenario works with during a run.
type Env struct {
	W       *simrt.World
	T       *testing.T
	R       Rng // harness choices made while the run proceeds
	res     *RunResult
	verbose bool
	seq     int64
	actors  int
}

// Fail records a violation; the run stops at the next decision.
//
//go:norace
func (e *Env) Fail(class, format string, a ...any) {
	if len(e.res.Violations) < 4 {
		msg := fmt.Sprintf(format, a...)
		e.res.Violations = append(e.res.Violations, Violation{class, msg})
		e.trace("VIOLATION " + class + ": " + msg)
	}
	e.W.RequestStop()
}

// Failed says whether a violation was recorded.
//
//go:norace
func (e *Env) Failed() bool { return len(e.res.Violations) > 0 }

// Bug reports an error of the harness itself.
//
//go:norace
func (e *Env) Bug(format string, a ...any) {
	if e.res.HarnessErr == "" {
		e.res.HarnessErr = fmt.Sprintf(format, a...)
	}
	e.W.RequestStop()
}

//go:norace
func (e *Env) Probe(name string) { e.res.Probes[name]++ }

//go:norace
func (e *Env) Fault(name string) { e.res.Faults[name]++ }

//go:norace
func (e *Env) Check() { e.res.Evals++ }

// Seq is the global event sequence number.
//
//go:norace
func (e *Env) Seq() int64 { e.seq++; return e.seq }

// Log adds an event to the run's history (and to its hash).
//
//go:norace
func (e *Env) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	e.W.MixString(s)
	if e.verbose {
		e.trace(fmt.Sprintf("        [%v] %s: %s", e.W.Now(), simrt.SelfName(), s))
	}
}

//go:norace
func (e *Env) trace(s string) {
	if e.verbose && len(e.res.Trace) < 20000 {
		e.res.Trace = append(e.res.Trace, s)
	}
}

// Actor starts a simulated client/server thread.
func (e *Env) Actor(name string, fn func()) {
	e.actors++
	e.W.Spawn(name, func() {
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil {
					e.Bug("actor %s panicked: %v\n%s", name, r, shortStack())
				}
			}
		}()
		fn()
		normal = true
	})
}

// Drive runs all actors to completion within the simulated horizon.
func (e *Env) Drive(horizon time.Duration) simrt.Outcome {
	o := e.W.Drive(true, horizon)
	e.res.Outcome = o.String()
	return o
}

// MustFinish drives and reports non-termination as a violation of class.
func (e *Env) MustFinish(horizon time.Duration, class string) bool {
	switch o := e.Drive(horizon); o {
	case simrt.AllDone:
		return true
	case simrt.Stopped:
		return false
	case simrt.Endless:
		e.Probe("given up: background tasks go on for ever")
		return false
	default:
		e.Fail(class, "no progress: %v after %d steps and %v simulated time; live tasks: %s", o, e.W.Steps(), e.W.Now(), strings.Join(e.W.Live(), ", "))
		return false
	}
}

// Drain lets background tasks (started by gofre or by application code) finish.
// Tasks which never end (a janitor with a ticker) are given up after a number of
// steps.
func (e *Env) Drain(horizon time.Duration) simrt.Outcome {
	max := e.W.MaxSteps
	if e.W.Extended() {
		max = e.W.Steps() + 100000
	}
	old := e.W.MaxSteps
	e.W.MaxSteps = max
	o := e.W.Drive(false, horizon)
	e.W.MaxSteps = old
	return o
}

func shortStack() string {
	b := make([]byte, 16<<10)
	n := runtimeStack(b)
	return string(b[:n])
}

// SeedFor derives the seed of run i of a property.
func SeedFor(base int64, prop string, i int64) uint64 {
	r := simrt.NewRng(uint64(base), hashString(prop))
	x := r.Next()
	r2 := simrt.NewRng(x, uint64(i))
	return r2.Next() >> 1
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// GenCase makes the case of a seed.
func GenCase(s *Scenario, seed uint64, thorough bool) *Case {
	r := simrt.NewRng(seed, 0x9e11)
	c := s.Gen(&r, thorough)
	if s.Near {
		nearRepeats(&r, c)
	}
	c.Prop = s.Prop
	c.Seed = seed
	if c.Cfg == nil {
		c.Cfg = map[string]int64{}
	}
	return c
}

// nearRepeats replaces some operations by copies of others of their kind, most
// of them with one parameter taken from a third one: whatever is remembered of
// a request is tried on one that is nearly the same.
func nearRepeats(r *Rng, c *Case) {
	if r.Intn(3) > 0 {
		return
	}
	type pos struct{ a, i int }
	kinds := map[string][]pos{}
	var order []string
	for a, ops := range c.Actors {
		for i, op := range ops {
			if kinds[op.K] == nil {
				order = append(order, op.K)
			}
			kinds[op.K] = append(kinds[op.K], pos{a, i})
		}
	}
	for _, k := range order {
		l := kinds[k]
		if len(l) < 2 {
			continue
		}
		for n := 1 + r.Intn(len(l)); n > 0; n-- {
			src, dst, third := l[r.Intn(len(l))], l[r.Intn(len(l))], l[r.Intn(len(l))]
			op := c.Actors[src.a][src.i]
			p := map[string]int64{}
			var names []string
			for x, v := range op.P {
				p[x] = v
				names = append(names, x)
			}
			sort.Strings(names)
			if len(names) > 0 && r.Intn(4) > 0 {
				x := names[r.Intn(len(names))]
				if v, ok := c.Actors[third.a][third.i].P[x]; ok {
					p[x] = v
				}
			}
			delete(p, "rep") // storms are expensive
			op.P = p
			c.Actors[dst.a][dst.i] = op
		}
	}
}

// MakePolicy draws the scheduling policy of a seed.
func MakePolicy(s *Scenario, seed uint64, actors int) simrt.Policy {
	r := simrt.NewRng(seed, 0x901)
	p := simrt.Policy{Starve: -1, HotMod: 1}
	ps := []float64{0.01, 0.03, 0.1, 0.3, 1}
	p.P = ps[r.Intn(len(ps))]
	switch k := r.Intn(20); {
	case k < 9:
		p.Mode = 0
	case k < 13:
		p.Mode = 1
		p.P = []float64{0.02, 0.1, 0.3}[r.Intn(3)]
	case k < 19:
		p.Mode = 2
		p.P = []float64{0.005, 0.02, 0.05}[r.Intn(3)]
		p.HotP = 0.3 + 0.7*r.Float()
		p.HotMod = uint32(3 + r.Intn(40))
	default:
		p.Mode = 3
	}
	if r.Intn(4) == 0 && actors > 1 {
		p.Starve = r.Intn(actors)
		p.StarveTo = int64(50 + r.Intn(1500))
	}
	if r.Intn(3) == 0 {
		p.AdvP = []float64{0.01, 0.05, 0.2}[r.Intn(3)]
		p.AdvMax = []time.Duration{time.Millisecond, time.Second, 30 * time.Second}[r.Intn(3)]
	}
	if s.Pol != nil {
		s.Pol(&r, &p)
	}
	return p
}

// RunOne executes one item in a fresh bubble.
func RunOne(t *testing.T, s *Scenario, it simcase.Item, verbose bool) (res *RunResult) {
	res = &RunResult{Seed: it.Case.Seed, Probes: map[string]int64{}, Faults: map[string]int64{}}
	c := it.Case.Clone()
	wd := time.AfterFunc(60*time.Second, func() {
		fmt.Fprintf(os.Stderr, "WATCHDOG: run of seed %d exceeds 60s of real time\n", it.Case.Seed)
		b := make([]byte, 1<<20)
		n := runtimeStackAll(b)
		os.Stderr.Write(b[:n])
		os.Exit(97)
	})
	defer wd.Stop()
	var e *Env
	// in a goroutine of its own: package testing ends the calling goroutine when
	// a race was reported
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.Contains(msg, "deadlock") && e != nil {
					res.Probes["goroutines blocked for ever at the end of the run"]++
					return
				}
				res.HarnessErr = msg + "\n" + shortStack()
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			pol := MakePolicy(s, it.Case.Seed, len(c.Actors))
			var replay []simrt.Decision
			for _, d := range it.Decisions {
				replay = append(replay, simrt.Decision(d))
			}
			w := simrt.Begin(it.Case.Seed, pol, replay, it.Scheduled)
			w.SiteName = siteName
			defer simrt.End()
			simcrand.Fail = nil
			e = &Env{W: w, T: t, res: res, verbose: verbose, R: simrt.NewRng(it.Case.Seed, 0x4a17)}
			if verbose {
				w.Trace = func(s string) { e.trace(s) }
			}
			s.Run(e, c)
			for i := 0; i < w.NCrashes; i++ {
				cr := w.Crashes[i]
				e.Fail("crash", "a goroutine started while serving requests (%s) panicked, which ends the server process: %s\n%s", cr.Task, cr.Value, cr.Stack)
			}
			w.Kill()
			res.Steps, res.Switches, res.Preempts, res.Advances = w.Steps(), w.Switches, w.Preempts, w.Advances
			res.SimNs = int64(w.Now())
			res.Hash, res.ILHash = w.Hash(), w.ILHash()
			res.Tasks, res.Foreign = w.TaskCnt, w.Foreign
			res.Decisions = nil
			for _, d := range w.Decisions {
				res.Decisions = append(res.Decisions, simcase.Decision(d))
			}
		})
	}()
	<-done
	if len(res.Violations) > 0 {
		sort.SliceStable(res.Violations, func(i, j int) bool { return false })
	}
	return res
}
