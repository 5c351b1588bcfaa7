package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/ixtendio/gofre/auth/oauth"
	"verifsim/simhttp"
	"verifsim/simrt"
)

// C24: a request that has ended leaves nothing behind.

func init() {
	register(&Scenario{Prop: "C24", Gen: genC24, Run: runC24, Pol: func(r *Rng, p *simrt.Policy) { p.AdvP = 0 },
		Rule: "A case is an application with a random stack of the framework's middlewares and 2-5 clients sending a mix of requests to routes of every kind, each with a path, host, origin, principal, permissions, code, state and error text of its own, and most with a fault: clients that go away or stall, bodies that break off, providers, stores, suppliers and handlers that fail, nonces and states that are unknown; in some runs the stores are slow and clients leave while they wait. The same mix is sent four to twelve times with new names, and after each time the simulator waits until nothing moves any more; background tasks and live objects after a garbage collection must not grow every time, and every provider response must have been closed."})
}

const (
	leakPhases = 4  // at least; three times as many when something grows
	longPhase  = 16 // times as long are the last ones
)

func genC24(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("stack", r.Intn(128), "level", r.Intn(3)-1, "n", 48+r.Intn(3)*24, "store", []int{0, 0, 5, 2000}[r.Intn(4)])}
	leave := r.Intn(2)
	kinds := make([]int, 1+r.Intn(3))
	for i := range kinds {
		kinds[i] = r.Intn(nMixed)
	}
	same := r.Intn(3) == 0 // all requests meet the same fault
	one := Op{}
	for a := 0; a < 2+r.Intn(4); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(4); i++ {
			k := kinds[r.Intn(len(kinds))]
			o := Op{K: "req", P: P("kind", k, "x", r.Intn(1<<20), "ae", r.Intn(4), "tls", r.Intn(2), "origin", r.Intn(3), "idp", r.Intn(3)*r.Intn(nIdpFaults), "odd", r.Intn(3))}
			if leave == 1 && r.Intn(2) == 0 {
				o.P["gone"] = []int64{1, 3, 500, 3000, 60000}[r.Intn(5)]
			}
			if r.Intn(2) == 0 {
				o.P["fault"], o.P["at"], o.P["grace"] = int64(1+r.Intn(3)), int64(r.Intn(60)-1), int64(r.Intn(3))
			}
			if r.Intn(3) == 0 {
				l := append([]int{spHandler, spClient, spMiddleware}, stallsOf[k]...)
				o.P["stall"], o.P["ms"] = int64(l[r.Intn(len(l))]), []int64{1, 900, 3000, 3600000}[r.Intn(4)]
			}
			if same {
				if one.P == nil {
					one = o
				}
				x := o.P["x"]
				o = Op{K: "req", P: map[string]int64{}}
				for k, v := range one.P {
					o.P[k] = v
				}
				if r.Intn(2) == 0 {
					o.P["x"] = x
				}
			}
			ops = append(ops, o)
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

const (
	idpFine = iota
	idpStatus
	idpGarbage
	idpBreaksOff
	idpUnreachable
	idpSilent
	idpEmpty
	idpChatty // says more than its answer
	nIdpFaults
)

var idpFaultNames = []string{"", "provider answers 500", "provider answers garbage", "provider answer breaks off", "provider unreachable", "provider never answers", "provider answers nothing", "provider says more than its answer"}

// trackedBody is the body of a provider's answer: who gets it closes it.
type trackedBody struct {
	io.Reader
	what   string
	broken error
	closed bool
}

func (b *trackedBody) Close() error { b.closed = true; return nil }
func (b *trackedBody) Read(p []byte) (int, error) {
	simrt.Yield()
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.broken != nil {
		err = b.broken
	}
	return n, err
}

// disturb lets the provider fail the request.
func (q *mixedReq) disturb(req *http.Request, resp *http.Response, out string) error {
	f := q.op.I("idp") % nIdpFaults
	if f > 0 && q.op.I("x")/2%2 == 0 && !strings.Contains(out, "@") {
		f = idpFine // only for the second call
	}
	if f != idpFine {
		q.e.Fault(idpFaultNames[f])
	}
	b := &trackedBody{what: req.URL.String()}
	resp.ContentLength = -1
	switch f {
	case idpStatus:
		resp.StatusCode, resp.Status = 500, "500 Internal Server Error"
	case idpGarbage:
		out = "<html>" + out
	case idpBreaksOff:
		out, b.broken = out[:len(out)/2], io.ErrUnexpectedEOF
	case idpUnreachable:
		return errors.New("connection refused to " + q.tag)
	case idpSilent:
		<-req.Context().Done()
		simrt.Yield()
		return req.Context().Err()
	case idpEmpty:
		out = ""
	case idpChatty:
		out += strings.Repeat(" more", 1000)
	}
	b.Reader = strings.NewReader(out)
	resp.Body = b
	q.bodies = append(q.bodies, b)
	return nil
}

// briefCache is a store that keeps nothing for long.
type briefCache struct {
	e    *Env
	m    map[string]bool
	q    func() *mixedReq
	slow time.Duration
}

// takes lets an operation last.
func (c *briefCache) takes() {
	if c.slow == 0 {
		simrt.Yield()
		return
	}
	c.e.Fault("store slow")
	simrt.Sleep(c.slow)
}

func (c *briefCache) Add(k string, d time.Duration) error {
	c.takes()
	if q := c.q(); q != nil && q.op.I("odd") == 2 && q.op.I("x")%4 == 0 {
		c.e.Fault("store fails")
		return errors.New("store unreachable for " + k)
	}
	c.m[k] = true
	return nil
}
func (c *briefCache) Remove(k string)        { c.takes(); delete(c.m, k) }
func (c *briefCache) Contains(k string) bool { c.takes(); return c.m[k] }

func runC24(e *Env, c *Case) {
	t1, t2 := oauth.HttpClient.Transport, http.DefaultTransport
	oauth.HttpClient.Transport, http.DefaultTransport = idpBehind(t1), idpBehind(t2)
	defer func() { oauth.HttpClient.Transport, http.DefaultTransport = t1, t2 }()
	e.W.MaxSteps *= 10
	cur := map[string]*mixedReq{}
	by := func() *mixedReq { return cur[simrt.SelfOwner()] }
	root, err := makeTree()
	if err != nil {
		e.Bug("scratch directory: %v", err)
		return
	}
	simhttp.Hook = func(op *simhttp.Op) error {
		if op.Kind == "read" || op.Kind == "open" {
			by().at(spBody)
		}
		return nil
	}
	defer func() { simhttp.Hook = nil }()
	slow := time.Duration(c.C("store")) * time.Millisecond
	nonces, states := &briefCache{e: e, q: by, slow: slow}, &briefCache{e: e, q: by, slow: slow}
	bits := c.I("stack")
	parts := &mixedParts{e: e, bits: bits, level: int(c.C("level")), by: by, nonces: nonces, states: states, root: root}
	mux := parts.application()
	if e.Failed() {
		return
	}
	total := 0
	for _, ops := range c.Actors {
		total += len(ops)
	}
	if total == 0 {
		return
	}
	rounds := (max(24, c.I("n")) + total - 1) / total // of the mix in a phase
	n := rounds * total

	var open []*trackedBody
	one := func(q *mixedReq, spec *ReqSpec) *Exchange {
		me := simrt.SelfName()
		cur[me] = q
		spec.Ctx = context.WithValue(context.Background(), mixedKey{}, q)
		spec.OnWriter = func(rw *RW) { q.rw = rw }
		over := false
		if g := q.op.P["gone"]; g > 0 {
			spec.OnCancel = func(cancel context.CancelFunc) {
				simrt.Go("network "+q.tag, func() {
					simrt.Sleep(time.Duration(g) * time.Millisecond)
					if !over {
						e.Fault("client disconnect")
						cancel()
					}
				})
			}
		}
		x := e.Serve(mux, spec)
		over = true
		cur[me] = nil
		for _, b := range q.bodies {
			if !b.closed {
				b.what = fmt.Sprintf("request %s (%s): the answer of %s", q.tag, mixedNames[q.kind], b.what)
				open = append(open, b)
			}
		}
		q.bodies = nil
		return x
	}
	request := func(tag string, op Op) {
		k := op.I("kind") % nMixed
		q := &mixedReq{e: e, op: op, tag: tag, kind: k, unique: true}
		xx := op.I("x")
		spec := &ReqSpec{Method: "GET", Path: fmt.Sprintf("/m%d/%s", k, tag), Header: hdr("X-Sim", tag), TLS: op.I("tls") == 1, Host: tag + ".example.com", Remote: fmt.Sprintf("10.%d.%d.%d:4000", len(tag), xx%256, hashString(tag)%256)}
		spec.Header.Set("User-Agent", "agent of "+tag)
		spec.Header.Set("X-Request-Id", tag)
		if op.I("ae") > 0 {
			spec.Header.Set("Accept-Encoding", acceptEncodings[op.I("ae")%4])
		}
		switch op.I("origin") {
		case 1:
			spec.Header.Set("Origin", "https://a.example")
		case 2:
			spec.Header.Set("Origin", "https://"+tag+".example")
		}
		if op.I("stall") == spClient {
			spec.Stall = time.Duration(op.P["ms"]) * time.Millisecond
		}
		if xx%3 == 0 {
			spec.Variant = varH2
		}
		if f := op.I("fault"); f > 0 {
			spec.Fault, spec.FaultAt, spec.Grace = f, op.P["at"], op.I("grace")
		}
		setForm := func(b string) {
			spec.Method = "POST"
			spec.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			spec.Body, spec.BodyLen = &stallReader{q: q, at: spRequestBody, data: []byte(b)}, int64(len(b))
		}
		switch k {
		case mkSSE:
			spec.Header.Set("Last-Event-ID", tag)
			if xx%4 > 0 {
				spec.Variant, spec.Proto = varH2, 2
			}
		case mkHijack:
			spec.Variant = varH1
			spec.HijackFails = op.I("odd") == 1
		case mkNotFound:
			spec.Path = []string{"/none/" + tag, "/m3/" + tag + "/" + tag, "/" + tag}[op.I("odd")]
			if xx%5 == 0 {
				spec.Method = "X" + strings.ToUpper(tag)
			}
		case mkAsset:
			spec.Path = []string{"/assets/a.txt", "/assets/", "/assets/missing" + tag, "/assets/big.bin"}[xx%4]
		case mkPreflight:
			spec.Method = "OPTIONS"
			spec.Header.Set("Access-Control-Request-Method", "POST")
		case mkForm:
			setForm("f=" + strings.Repeat(tag, 10))
			if op.I("odd") == 1 {
				spec.BodyLen += 100 // and it breaks off
			}
		case mkInitiate:
			spec.Path, spec.Query = "/oauth/initiate", "provider="+[]string{"github", "google", tag}[op.I("odd")]
		case mkAuthorize:
			st := "state " + tag
			if op.I("odd") != 1 {
				states.m[st] = true
			}
			spec.Path = "/oauth/authorize/" + []string{"github", "google"}[xx%2]
			spec.Query = "state=" + strings.ReplaceAll(st, " ", "+") + "&code=" + tag
			if xx%7 == 0 {
				spec.Query += "&error=" + tag
			}
		case mkCSRF:
			nonce := ""
			if xx%3 == 0 {
				q.op.P = map[string]int64{} // the page itself arrives
			}
			x := one(q, spec)
			if !x.Finished || e.Failed() {
				return
			}
			if b, err := decodeBody(x); err == nil {
				nonce = string(b)
			}
			if op.I("odd") == 1 {
				nonce = "forged " + tag
			}
			q = &mixedReq{e: e, op: op, tag: tag + "p", kind: k, unique: true}
			spec = &ReqSpec{Method: "POST", Path: spec.Path, Header: spec.Header.Clone(), TLS: spec.TLS, Stall: spec.Stall, Fault: spec.Fault, FaultAt: spec.FaultAt, Grace: spec.Grace}
			setForm("pad=1234567890&_csrf=" + nonce)
		}
		one(q, spec)
		e.Check()
	}

	mix := map[string]bool{}
	for _, ops := range c.Actors {
		for _, op := range ops {
			mix[mixedNames[op.I("kind")%nMixed]] = true
		}
	}
	// grows tells whether every phase but the first has added something.
	grows := func(v []int, by int) bool {
		for ph := 1; ph < len(v); ph++ {
			by := by
			if ph >= 2*leakPhases {
				by *= longPhase
			}
			if v[ph]-v[ph-1] < by {
				return false
			}
		}
		return true
	}
	var objects, tasks []int
	for ph := 0; ph < 3*leakPhases; ph++ {
		if ph == 2*leakPhases {
			// not just something with a limit that was filled
			rounds *= longPhase
			e.W.MaxSteps *= longPhase
		}
		nonces.m, states.m = map[string]bool{}, map[string]bool{}
		for ai, ops := range c.Actors {
			me := fmt.Sprintf("client%d", ai)
			cur[me] = nil
			e.Actor(me, func() {
				for rd := 0; rd < rounds; rd++ {
					for i, op := range ops {
						request(fmt.Sprintf("p%dr%dt%dq%d", ph, rd+10, ai, i), op)
						if e.Failed() {
							return
						}
					}
				}
			})
		}
		if !e.MustFinish(10000*hour, "stuck") {
			return
		}
		e.Drain(10000 * hour)
		for _, b := range open {
			if !b.closed {
				e.Fail("open", "%s was never closed", b.what)
				return
			}
		}
		open = nil
		nonces.m, states.m = map[string]bool{}, map[string]bool{}
		tasks = append(tasks, len(e.W.LiveBackground()))
		e.W.ForgetPools()
		e.W.ForgetDone()
		objects = append(objects, liveObjects()-len(e.res.Trace))
		if e.verbose {
			e.trace(fmt.Sprintf("        after phase %d (%d requests): %d background tasks", ph, n, tasks[ph]))
		}
		moreTasks, moreObjects := grows(tasks, 1+n/8), grows(objects, 8+n/3)
		if ph+1 == leakPhases {
			e.W.Seal() // what the memory does is for the runtime to decide
		}
		if ph+1 >= leakPhases && !moreTasks && !moreObjects {
			break
		}
		if ph+1 == leakPhases {
			e.Probe("something grew at first")
		}
		if ph+1 == 3*leakPhases || moreTasks && ph == 2*leakPhases {
			if moreTasks {
				e.Fail("tasks", "the same %d requests (%s), sent %d times with other names, each time left more background tasks running: %v", n, keysOf(mix), len(tasks), tasks)
			} else {
				e.Fail("memory", "the same %d requests (%s), sent %d times with other names, each time left more objects in memory", n, keysOf(mix), len(objects))
			}
		}
	}
}

func liveObjects() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapObjects)
}

func keysOf(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}
