// Package simrt is the deterministic scheduler. It is linked into the
// instrumented copy of gofre (every statement is preceded by a call to Y) and
// into the harness.
//
// One run is executed inside one testing/synctest bubble: time is simulated
// and the bubble tells us when every goroutine is blocked. At any moment at
// most one task (the token holder, World.cur) executes instrumented code; it
// gives the token up at a Y only when the seeded scheduler says so, or when it
// blocks or finishes. Which parked task runs next, and by how much simulated
// time jumps while tasks are runnable, is decided by the root goroutine from
// the run's seed (or from a recorded decision list when replaying).
//
// The package is compiled without race instrumentation even in -race builds,
// and it hides its own hand-over synchronisation from the detector, so that
// handing the token from task to task does not create happens-before edges
// which the simulated program does not have.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname getlab runtime/pprof.runtime_getProfLabel
func getlab() unsafe.Pointer

//go:linkname setlab runtime/pprof.runtime_setProfLabel
func setlab(unsafe.Pointer)

func getg() uintptr

const (
	stRunning = iota // holds the token, or is blocked natively
	stReady          // parked at a Y, may be picked
	stWaiting        // parked until Wake(waitOn)
	stDone
)

// Task is one simulated thread.
type Task struct {
	ID      int
	Name    string
	Owner   string // the actor that started it, or that started the task that did
	Actor   bool
	service bool // started before the run: serves as long as the process lives
	g       uintptr
	wake    chan struct{}
	state   atomic.Int32
	waitOn  unsafe.Pointer
	site    int32
	exiting bool
	prio    int64
	picks   int64 // times it was resumed
	next    *Task
	owed    bool // has not been resumed in this round
	noYield int
}

// Decision is one recorded scheduling decision: at step At the scheduler let
// simulated time jump by Adv and then ran task Pick.
type Decision struct {
	At   int64 `json:"at"`
	Pick int   `json:"pick"`
	Adv  int64 `json:"adv,omitempty"`
}

// Policy is the (swarm-chosen) scheduling policy of a run.
type Policy struct {
	Mode     int     // 0 random walk, 1 priorities with change points, 2 hot sites, 3 run to block
	P        float64 // probability of a switch at an ordinary yield point
	HotP     float64 // probability of a switch at a hot site (mode 2)
	HotMod   uint32  // a site is hot when hash(site) % HotMod == 0
	AdvP     float64 // probability that a scheduling decision lets time jump
	AdvMax   time.Duration
	Starve   int // task id which is picked only when nothing else is ready (-1 none)
	StarveTo int64
}

// Event of a crashed background task.
type Crash struct {
	Task  string
	Value string
	Stack string
}

// World is the state of one run.
type World struct {
	Seed     uint64
	Pol      Policy
	Rounds   int // how often every task which could run has run
	owing    int
	Replay   []Decision
	isReplay bool

	Decisions []Decision
	MaxSteps  int64
	Horizon   time.Duration

	mu       sync.Mutex // protects adoption of foreign goroutines
	head     *Task
	tail     *Task
	nextID   int
	cur      *Task
	steps    int64
	budget   int64
	stopping bool
	running  bool
	start    time.Time
	kick     chan struct{}
	rootG    uintptr

	ext      bool // the second budget is in use
	extPicks int64
	extStart time.Time

	srng    Rng // scheduling stream
	streams [nStreams]Rng
	epoch   uint64

	Crashes  [8]Crash
	NCrashes int

	hash     uint64 // hash over scheduling decisions and logged events
	sealed   uint64 // the hash where it ended, or 0
	ilHash   uint64 // hash over the interleaving only
	Switches int64
	Picks    int64
	Preempts int64
	Advances int64
	stalled  time.Duration
	stallMax time.Duration
	SimTime  time.Duration
	Foreign  int
	TaskCnt  int

	WallShift int64 // ns added to the wall reading of simtime.Now

	pools *PoolList // used in this run

	stopReq bool
	OnEvent func() // called by the root after every decision
	Trace   func(string)

	SiteName func(int32) string
}

var world *World
var epochCtr uint64

const (
	StreamPool = iota
	StreamMap
	StreamSelect
	StreamRand
	StreamCrypto
	StreamHarness
	nStreams
)

// Begin installs a new world. Must be called by the bubble's root goroutine.
func Begin(seed uint64, pol Policy, replay []Decision, isReplay bool) *World {
	epochCtr++
	w := &World{
		Seed: seed, Pol: pol, Replay: replay, isReplay: isReplay,
		MaxSteps: 400000, Horizon: 24 * time.Hour,
		kick: make(chan struct{}, 1), epoch: epochCtr,
		hash: 14695981039346656037, ilHash: 14695981039346656037,
		start: time.Now(),
	}
	w.srng = NewRng(seed, 0x5ced)
	for i := range w.streams {
		w.streams[i] = NewRng(seed, 0xabc0+uint64(i))
	}
	w.rootG = getg()
	w.Decisions = make([]Decision, 0, 64)
	setlab(nil)
	world = w
	resetPackages()
	return w
}

// Package-level state of the code under test that belongs to one run.

type resetFn struct {
	pkg, idx int
	f        func()
}

var (
	resetPkgs   = map[string]int{}
	resetFns    []resetFn
	resetSorted bool
)

// OnReset registers the initialisation of a package-level variable.
func OnReset(pkg string, idx int, f func()) {
	k, ok := resetPkgs[pkg]
	if !ok {
		k = len(resetPkgs)
		resetPkgs[pkg] = k
	}
	resetFns = append(resetFns, resetFn{k, idx, f})
	resetSorted = false
}

// Zero sets a variable to its zero value.
//
//go:norace
func Zero[T any](p *T) {
	var z T
	*p = z
}

func resetPackages() {
	if !resetSorted {
		sort.SliceStable(resetFns, func(i, j int) bool {
			a, b := resetFns[i], resetFns[j]
			return a.pkg < b.pkg || a.pkg == b.pkg && a.idx < b.idx
		})
		resetSorted = true
	}
	for _, r := range resetFns {
		r.f()
	}
}

// End removes the world.
func End() { world = nil }

// Current returns the installed world (nil outside a run).
func Current() *World { return world }

// Active reports whether the caller runs as a simulated task.
func Active() bool {
	w := world
	return w != nil && self(w) != nil
}

func (w *World) mix(v uint64) {
	w.hash = (w.hash ^ v) * 1099511628211
	w.hash ^= w.hash >> 29
}

// Mix adds a value to the event hash of the run.
func (w *World) Mix(v uint64) { w.mix(v) }

// MixString adds a string to the event hash of the run.
func (w *World) MixString(s string) {
	h := w.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.hash = h ^ h>>31
}

func (w *World) Hash() uint64 {
	if w.sealed != 0 {
		return w.sealed
	}
	return w.hash
}

// Seal ends the event hash: what follows was decided by a measurement.
func (w *World) Seal() {
	if w.sealed == 0 {
		w.sealed = w.hash | 1
	}
}
func (w *World) ILHash() uint64     { return w.ilHash }
func (w *World) Steps() int64       { return w.steps }
func (w *World) Now() time.Duration { return time.Since(w.start) }

// self returns the task of the calling goroutine, adopting goroutines which
// were started by uninstrumented code; nil for the root and outside a run.
func self(w *World) *Task {
	g := getg()
	t := (*Task)(getlab())
	if t != nil && t.g == g {
		return t
	}
	if g == w.rootG || !w.running {
		return nil
	}
	// a goroutine started by the standard library calls instrumented code
	raceDisable()
	w.mu.Lock()
	t = w.newTaskLocked("foreign")
	t.g = g
	w.Foreign++
	w.mu.Unlock()
	raceEnable()
	setlab(unsafe.Pointer(t))
	return t
}

func (w *World) newTaskLocked(name string) *Task {
	t := w.makeTaskLocked(name)
	w.linkTaskLocked(t)
	return t
}

func (w *World) makeTaskLocked(name string) *Task {
	t := &Task{ID: w.nextID, Name: name, wake: make(chan struct{}, 1), service: !w.running}
	w.nextID++
	w.TaskCnt++
	t.prio = int64(w.srng.Next() >> 2)
	return t
}

// linkTaskLocked keeps the list in the order of the IDs.
func (w *World) linkTaskLocked(t *Task) {
	if w.tail == nil || w.tail.ID < t.ID {
		if w.tail == nil {
			w.head = t
		} else {
			w.tail.next = t
		}
		w.tail = t
		return
	}
	pp := &w.head
	for (*pp).ID < t.ID {
		pp = &(*pp).next
	}
	t.next = *pp
	*pp = t
}

// Spawn starts an actor: a task the run waits for. Called by the root before
// Drive, or by another actor.
func (w *World) Spawn(name string, fn func()) *Task {
	raceDisable()
	w.mu.Lock()
	t := w.newTaskLocked(name)
	w.mu.Unlock()
	raceEnable()
	t.Actor = true
	t.Owner = t.Name
	go t.run(w, fn)
	return t
}

// Go is what the instrumenter makes of a go statement.
func Go(name string, fn func()) {
	w := world
	if w == nil && epochCtr == 0 {
		return // package initialisation, which every run repeats
	}
	if w == nil || w.stopping {
		go fn()
		return
	}
	raceDisable()
	w.mu.Lock()
	t := w.newTaskLocked(name)
	if p := self(w); p != nil {
		t.Owner = p.Owner
	}
	w.mu.Unlock()
	raceEnable()
	go t.run(w, fn)
}

// Callback wraps a function which the standard library calls on a goroutine of
// its own: the call becomes a task of the run.
func Callback(name string, fn func()) func() {
	w := world
	if w == nil || w.stopping || fn == nil {
		return fn
	}
	owner := SelfOwner()
	raceDisable()
	w.mu.Lock()
	first := w.makeTaskLocked(name) // when it is called, others may be too
	w.mu.Unlock()
	raceEnable()
	return func() {
		if world != w || w.stopping {
			return
		}
		raceDisable()
		w.mu.Lock()
		t := first
		if first = nil; t == nil {
			t = w.makeTaskLocked(name)
		}
		t.Owner = owner
		w.linkTaskLocked(t)
		w.mu.Unlock()
		raceEnable()
		t.run(w, fn)
	}
}

func (t *Task) run(w *World, fn func()) {
	t.g = getg()
	setlab(unsafe.Pointer(t))
	defer func() {
		if !t.Actor && !t.exiting {
			if r := recover(); r != nil {
				raceDisable()
				w.mu.Lock()
				if w.NCrashes < len(w.Crashes) {
					w.Crashes[w.NCrashes] = Crash{Task: t.Name, Value: fmt.Sprint(r), Stack: string(debug.Stack())}
					w.NCrashes++
				}
				w.mu.Unlock()
				raceEnable()
			}
		}
		raceReleaseTask(t)
		t.state.Store(stDone)
		raceDisable()
		w.poke()
		raceEnable()
	}()
	t.park(w, stReady, -1)
	fn()
}

func (w *World) poke() {
	select {
	case w.kick <- struct{}{}:
	default:
	}
}

// park blocks the calling task until the root picks it.
func (t *Task) park(w *World, st int32, site int32) {
	raceDisable()
	t.site = site
	t.state.Store(st)
	w.poke()
	<-t.wake
	raceEnable()
	if w.stopping {
		t.exiting = true
		runtime.Goexit()
	}
}

// Y is a yield point; the instrumenter puts one before every statement.
func Y(site int32) {
	w := world
	if w == nil {
		return
	}
	g := getg()
	t := (*Task)(getlab())
	if t == nil || t.g != g {
		if t = self(w); t == nil {
			return
		}
	}
	if t.exiting || t.noYield > 0 {
		return
	}
	if t == w.cur {
		w.steps++
		w.budget--
		if w.budget > 0 {
			if w.Pol.Mode == 2 && !w.isReplay && w.isHot(site) && w.srng.Float() < w.Pol.HotP {
				t.park(w, stReady, site)
			}
			return
		}
	}
	t.park(w, stReady, site)
}

func (w *World) isHot(site int32) bool {
	h := uint32(site)*2654435761 ^ uint32(w.Seed)
	h ^= h >> 15
	h *= 2246822519
	h ^= h >> 13
	return h%w.Pol.HotMod == 0
}

// Atomically runs fn without yielding (used by harness oracles only).
func Atomically(fn func()) {
	w := world
	if w == nil {
		fn()
		return
	}
	t := self(w)
	if t == nil {
		fn()
		return
	}
	t.noYield++
	defer func() { t.noYield-- }()
	fn()
}

// Yield is a yield point for harness stubs.
func Yield() { Y(-2) }

// Sleep lets the calling task sleep for simulated time.
func Sleep(d time.Duration) {
	Y(-3)
	time.Sleep(d)
	Y(-4)
}

// BlockOn parks the calling task until Wake(p). Returns false if the caller is
// not a task (the caller then has to block natively).
func BlockOn(p unsafe.Pointer) bool {
	w := world
	if w == nil {
		return false
	}
	t := self(w)
	if t == nil {
		return false
	}
	if t.exiting {
		runtime.Goexit()
	}
	t.waitOn = p
	t.park(w, stWaiting, -5)
	return true
}

// Wake makes the tasks waiting on p ready.
func Wake(p unsafe.Pointer) {
	w := world
	if w == nil {
		return
	}
	raceDisable()
	any := false
	for t := w.head; t != nil; t = t.next {
		if t.state.Load() == stWaiting && t.waitOn == p {
			t.state.Store(stReady)
			any = true
		}
	}
	if any {
		w.poke()
	}
	raceEnable()
}

// SelfName returns the name of the current task.
func SelfName() string {
	w := world
	if w == nil {
		return ""
	}
	if t := self(w); t != nil {
		return t.Name
	}
	return "root"
}

// Outcome of Drive.
type Outcome int

const (
	AllDone  Outcome = iota // every actor finished
	StepCap                 // the step budget is exhausted: no termination
	TimeCap                 // simulated time horizon reached with live actors
	Deadlock                // nothing can ever run again, actors are live
	Stopped                 // OnEvent asked to stop
	Endless                 // background tasks go on for ever and time passes: nothing can be said
)

func (o Outcome) String() string {
	return [...]string{"all-done", "step-cap", "time-cap", "deadlock", "stopped", "endless"}[o]
}

// RequestStop makes Drive return at the next decision.
func (w *World) RequestStop() { w.stopReq = true }

func (w *World) refill() {
	left := w.MaxSteps - w.steps
	if left < 1 {
		left = 1
	}
	if w.isReplay {
		w.budget = left
		for len(w.Replay) > 0 && w.Replay[0].At <= w.steps {
			w.Replay = w.Replay[1:]
		}
		if len(w.Replay) > 0 {
			if b := w.Replay[0].At - 1 - w.steps; b < left {
				w.budget = b
			}
			if w.budget < 1 {
				w.budget = 1
			}
		}
		return
	}
	var b int64
	switch w.Pol.Mode {
	case 3:
		b = left
	default:
		b = w.srng.Geometric(w.Pol.P)
	}
	if b > left {
		b = left
	}
	w.budget = b
}

// Drive runs the scheduler until all actors are done. It must be called by the
// root.
func (w *World) Drive(actorsOnly bool, horizon time.Duration) Outcome {
	raceDisable()
	defer func() {
		raceEnable()
		// the caller has waited for the tasks which are done
		for t := w.head; t != nil; t = t.next {
			if t.state.Load() == stDone {
				raceAcquireTask(t)
			}
		}
	}()
	w.running = true
	deadline := time.Now().Add(horizon)
	w.stalled, w.stallMax = 0, horizon/4
	idleRounds := 0
	for {
		synctest.Wait()
		if w.OnEvent != nil {
			w.OnEvent()
		}
		if w.stopReq {
			w.cur = nil
			return Stopped
		}
		live, ready := 0, 0
		var first *Task
		waiting := false
		for t := w.head; t != nil; t = t.next {
			switch t.state.Load() {
			case stReady:
				ready++
				if first == nil {
					first = t
				}
			case stWaiting:
				waiting = true
			case stDone:
				continue
			}
			if t.Actor || !actorsOnly && !t.service {
				live++
			}
		}
		if live == 0 {
			w.cur = nil
			return AllDone
		}
		if w.steps >= w.MaxSteps || w.ext && w.Picks >= w.extPicks+extMaxPicks {
			if !w.ext && actorsOnly {
				w.extend()
				continue
			}
			w.cur = nil
			if w.ext && time.Now().After(w.extStart) && !w.actorSpins() {
				return Endless
			}
			return StepCap
		}
		if !time.Now().Before(deadline) {
			w.cur = nil
			return TimeCap
		}
		if ready == 0 {
			w.cur = nil
			if waiting && idleRounds == 0 {
				// paranoia: let every waiter re-check its condition once per idle period
				idleRounds++
				for t := w.head; t != nil; t = t.next {
					t.state.CompareAndSwap(stWaiting, stReady)
				}
				continue
			}
			select {
			case <-w.kick:
				if w.anyReady() {
					continue
				}
			default:
			}
			tm := time.NewTimer(time.Until(deadline))
			select {
			case <-w.kick:
			case <-tm.C:
			}
			tm.Stop()
			if w.anyReady() {
				idleRounds = 0
			}
			continue
		}
		w.pick(first, ready)
	}
}

const (
	extSteps    = 50000000
	extMaxPicks = 300000
	extSpin     = 20000
)

// extend gives a run which used up its steps a second, much larger budget with
// a fair scheduler that hardly preempts: expensive work and busy background
// tasks are not lack of progress.
func (w *World) extend() {
	w.ext = true
	w.MaxSteps = w.steps + extSteps
	w.extPicks = w.Picks
	w.extStart = time.Now()
	w.Pol = Policy{P: 0.0005, Starve: -1, HotMod: 1}
	for t := w.head; t != nil; t = t.next {
		t.picks = 0
	}
}

// actorSpins tells whether an unfinished actor itself was resumed again and
// again: it polls for something which never happens.
func (w *World) actorSpins() bool {
	for t := w.head; t != nil; t = t.next {
		if t.Actor && t.state.Load() != stDone && t.picks > extSpin {
			return true
		}
	}
	return false
}

// Extended tells whether the second budget was needed.
func (w *World) Extended() bool { return w.ext }

func (w *World) anyReady() bool {
	for t := w.head; t != nil; t = t.next {
		if t.state.Load() == stReady {
			return true
		}
	}
	return false
}

func (w *World) pick(first *Task, ready int) {
	cur := w.cur
	voluntary := cur != nil && cur.state.Load() == stReady
	var choice *Task
	var adv time.Duration
	if w.isReplay {
		for len(w.Replay) > 0 && w.Replay[0].At <= w.steps {
			w.Replay = w.Replay[1:]
		}
		if len(w.Replay) > 0 && w.Replay[0].At == w.steps+1 {
			d := w.Replay[0]
			w.Replay = w.Replay[1:]
			adv = time.Duration(d.Adv)
			if adv > 0 {
				w.advance(adv)
			}
			choice = w.byID(d.Pick)
			if choice == nil || choice.state.Load() != stReady {
				choice = nil
			}
			if choice == nil && voluntary && adv == 0 {
				choice = cur
			}
		}
		if choice == nil {
			if voluntary {
				choice = cur
			} else {
				choice = w.firstReady()
			}
		}
	} else {
		// a stall is not lack of progress: all of them together stay well below
		// the horizon, however many steps the work takes
		if w.Pol.AdvP > 0 && w.stalled < w.stallMax && w.srng.Float() < w.Pol.AdvP {
			adv = w.srng.Duration(w.Pol.AdvMax)
			w.stalled += adv
			w.advance(adv)
		}
		choice = w.choose(cur, voluntary)
	}
	if !(voluntary && choice == cur && adv == 0) {
		w.steps++
		def := w.firstReady()
		if voluntary {
			def = nil
		}
		if voluntary || choice != def || adv > 0 {
			w.Decisions = append(w.Decisions, Decision{At: w.steps, Pick: choice.ID, Adv: int64(adv)})
		}
		if voluntary && choice != cur {
			w.Preempts++
		}
		w.Switches++
		s := uint64(uint32(choice.site))<<16 | uint64(choice.ID)
		w.mix(s ^ uint64(adv)<<3)
		w.mix(uint64(w.steps))
		w.ilHash = (w.ilHash ^ s) * 1099511628211
		if w.Trace != nil {
			// no fmt here: its pools are shared with the tasks
			v := "false"
			if voluntary {
				v = "true"
			}
			w.Trace("step " + strconv.FormatInt(w.steps, 10) + " t=" + w.Now().String() + " run " + choice.Name + "(#" + strconv.Itoa(choice.ID) + ") at " + w.siteName(choice.site) + " adv=" + adv.String() + " voluntary=" + v)
		}
	}
	w.Picks++
	choice.picks++
	if choice.owed {
		choice.owed = false
		w.owing--
	}
	if w.owing <= 0 {
		w.Rounds++
		w.owing = 0
		for t := w.head; t != nil; t = t.next {
			if t.owed = t != choice && t.state.Load() == stReady; t.owed {
				w.owing++
			}
		}
	}
	w.cur = choice
	choice.state.Store(stRunning)
	w.refill()
	choice.wake <- struct{}{}
}

func (w *World) siteName(s int32) string {
	if w.SiteName != nil && s >= 0 {
		return w.SiteName(s)
	}
	switch s {
	case -1:
		return "start"
	case -2:
		return "stub"
	case -3, -4:
		return "sleep"
	case -5:
		return "lock"
	}
	return strconv.Itoa(int(s))
}

func (w *World) advance(d time.Duration) {
	w.Advances++
	time.Sleep(d)
	synctest.Wait()
}

func (w *World) byID(id int) *Task {
	for t := w.head; t != nil; t = t.next {
		if t.ID == id {
			return t
		}
	}
	return nil
}

func (w *World) firstReady() *Task {
	for t := w.head; t != nil; t = t.next {
		if t.state.Load() == stReady {
			return t
		}
	}
	return nil
}

func (w *World) choose(cur *Task, voluntary bool) *Task {
	var list [64]*Task
	n := 0
	for t := w.head; t != nil; t = t.next {
		if t.state.Load() == stReady && n < len(list) {
			list[n] = t
			n++
		}
	}
	if n == 1 {
		return list[0]
	}
	switch w.Pol.Mode {
	case 3:
		if voluntary {
			return cur
		}
		return list[w.srng.Intn(n)]
	case 1:
		if w.srng.Float() < 0.15 && voluntary {
			cur.prio = -int64(w.srng.Next() >> 2) // change point
		}
		best := list[0]
		for _, t := range list[1:n] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	if w.Pol.Starve >= 0 && w.steps < w.Pol.StarveTo {
		k := 0
		for _, t := range list[:n] {
			if t.ID != w.Pol.Starve {
				list[k] = t
				k++
			}
		}
		if k > 0 {
			n = k
		}
	}
	return list[w.srng.Intn(n)]
}

// Kill ends every task which is still parked; natively blocked ones stay.
// It returns the names of tasks that are not done.
func (w *World) Kill() {
	raceDisable()
	defer raceEnable()
	w.stopping = true
	for i := 0; i < 1000; i++ {
		synctest.Wait()
		any := false
		for t := w.head; t != nil; t = t.next {
			st := t.state.Load()
			if st == stReady || st == stWaiting {
				any = true
				t.state.Store(stRunning)
				t.wake <- struct{}{}
				synctest.Wait()
			}
		}
		if !any {
			return
		}
	}
}

// Live lists tasks that are not done.
func (w *World) Live() []string {
	var out []string
	for t := w.head; t != nil; t = t.next {
		if t.state.Load() != stDone && t.Name != "foreign" {
			out = append(out, fmt.Sprintf("%s(#%d,%s)", t.Name, t.ID, w.siteName(t.site)))
		}
	}
	return out
}

// DescribeLive says where each live task is.
func (w *World) LiveBackground() []string {
	var out []string
	for t := w.head; t != nil; t = t.next {
		if t.state.Load() != stDone && !t.Actor && !t.service && t.Name != "foreign" {
			out = append(out, fmt.Sprintf("%s(#%d)", t.Name, t.ID))
		}
	}
	return out
}

// SameBackground tells whether two live background tasks do the same work.
func (w *World) SameBackground() bool {
	for t := w.head; t != nil; t = t.next {
		for u := t.next; u != nil; u = u.next {
			if t.Name == u.Name && !t.Actor && !u.Actor && !t.service && !u.service && t.Name != "foreign" && t.state.Load() != stDone && u.state.Load() != stDone {
				return true
			}
		}
	}
	return false
}

// SelfOwner returns the name of the actor on whose behalf the running task was
// started, however many tasks lie between.
func SelfOwner() string {
	w := world
	if w == nil {
		return ""
	}
	if t := self(w); t != nil {
		return t.Owner
	}
	return ""
}
