package simcase

// Job is what the orchestrator asks a worker process to do.
type Job struct {
	Mode      string  `json:"mode"` // batch, items, shrink, list
	Prop      string  `json:"prop"`
	Base      int64   `json:"base"`
	Thorough  bool    `json:"thorough"`
	From      int64   `json:"from"` // batch: runs From, From+Step, ... below To
	To        int64   `json:"to"`
	Step      int64   `json:"step"`
	WallMs    int64   `json:"wall_ms"`
	KeepHash  bool    `json:"keep_hash"` // batch: return every run's event hash
	Items     []Item  `json:"items"`
	Verbose   bool    `json:"verbose"`
	Class     string  `json:"class"`
	MaxTries  int     `json:"max_tries"`
	KnownFile string  `json:"known_file"`
	Out       string  `json:"out"`
	Known     []Known `json:"known"`
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// RunSummary is the result of one run that matters to the orchestrator.
type RunSummary struct {
	Index      int64       `json:"index"`
	Seed       uint64      `json:"seed"`
	Violations []Violation `json:"violations"`
	HarnessErr string      `json:"harness_err"`
	Hash       uint64      `json:"hash"`
	Item       *Item       `json:"item,omitempty"`
	Trace      []string    `json:"trace,omitempty"`
	Outcome    string      `json:"outcome"`
	Steps      int64       `json:"steps"`
	SimNs      int64       `json:"sim_ns"`
	Switches   int64       `json:"switches"`
}

// JobResult is what a worker writes.
type JobResult struct {
	Runs       int64            `json:"runs"`
	NonTrivial int64            `json:"non_trivial"`
	Distinct   []uint64         `json:"distinct"`
	Hashes     []uint64         `json:"hashes,omitempty"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Preempts   int64            `json:"preempts"`
	Advances   int64            `json:"advances"`
	Tasks      int64            `json:"tasks"`
	Foreign    int64            `json:"foreign"`
	SimS       float64          `json:"sim_s"`
	Evals      int64            `json:"evals"`
	Probes     map[string]int64 `json:"probes"`
	Faults     map[string]int64 `json:"faults"`
	Failures   []RunSummary     `json:"failures"`
	KnownHits  map[string]int64 `json:"known_hits"`
	Samples    []RunSummary     `json:"samples"`
	Results    []RunSummary     `json:"results"` // items mode
	Shrunk     *Item            `json:"shrunk,omitempty"`
	ShrinkTry  int              `json:"shrink_tries"`
	WallMs     int64            `json:"wall_ms"`
	Rule       string           `json:"rule"`
	Props      []string         `json:"props"`
	RaceErrors int              `json:"race_errors"`
	LastIndex  int64            `json:"last_index"`
}
