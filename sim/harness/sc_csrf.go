package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simcrand"
	"verifsim/simrt"
)

// C05: the CSRF middleware lets a state-changing request through only with a
// nonce it issued, unexpired, and each nonce at most once.
// C06: a valid nonce is accepted, and every accepted request gets a fresh one.

const csrfRule = "A case is 2-5 clients sending 2-8 requests each (safe methods fetching nonces, unsafe ones presenting own, shared, consumed, forged or missing nonces in the header, query, urlencoded or multipart body) through one CSRFPrevention instance over 2 routes, with gofre's in-memory cache or a stub distributed cache with latency, expiry times crossed by pauses and time jumps, wall-clock steps, floods of outstanding nonces, failing handlers, bodies that are no form or no readable one, nonce header names in any spelling, cache failures and entropy failures."

func init() {
	register(&Scenario{Prop: "C05", Rule: csrfRule, Gen: func(r *Rng, th bool) *Case { return genCSRF(r, true, th) }, Run: func(e *Env, c *Case) { runCSRF(e, c, true) }})
	register(&Scenario{Prop: "C06", Rule: csrfRule, Gen: func(r *Rng, th bool) *Case { return genCSRF(r, false, th) }, Run: func(e *Env, c *Case) { runCSRF(e, c, false) }})
}

func genCSRF(r *Rng, safety, th bool) *Case {
	c := &Case{Cfg: P("stub", r.Intn(2), "lat", r.Intn(4), "custom", r.Intn(3)*r.Intn(2), "names", r.Intn(4), "exp", []int64{3600000, 1000, 60000}[r.Intn(3)])}
	n := 2 + r.Intn(4)
	for a := 0; a < n; a++ {
		ops := []Op{{K: "safe", P: P("m", r.Intn(4), "route", r.Intn(2))}}
		if r.Intn(90) == 0 {
			// many clients which fetch a nonce and do not use it
			sizes := []int{70, 150, 300, 1100}
			if th {
				sizes = append(sizes, 3000, 11000)
			}
			ops = append(ops, Op{K: "flood", P: P("n", sizes[r.Intn(len(sizes))], "route", r.Intn(2))})
		}
		for i := 0; i < 1+r.Intn(7); i++ {
			o := Op{K: "unsafe", P: P("m", r.Intn(5), "route", r.Intn(2), "where", r.Intn(6), "src", r.Intn(8), "pick", r.Intn(6), "both", r.Intn(6)/5, "hold", r.Intn(4)*r.Intn(2))}
			if !safety && r.Intn(3) > 0 {
				o.P["src"] = int64(r.Intn(2))
			}
			if r.Intn(3) == 0 {
				o.P["payload"] = int64(1 + r.Intn(len(payloads)-1))
			}
			if r.Intn(5) == 0 {
				o.P["end"] = int64(1 + r.Intn(4)) // how the handler ends, see runCSRF
			}
			switch r.Intn(12) {
			case 0, 1:
				o = Op{K: "safe", P: P("m", r.Intn(4), "route", r.Intn(2))}
				if safety && r.Intn(3) == 0 {
					o.P["fault"] = int64(1 + r.Intn(4))
				}
			case 2:
				o = Op{K: "sleep", P: P("ms", []int64{10, 900, 1000, 1100, 59999, 3599999, 3600001}[r.Intn(7)])}
			case 3:
				if safety {
					o.P["fault"] = int64(1 + r.Intn(4))
				}
			}
			ops = append(ops, o)
		}
		c.Actors = append(c.Actors, ops)
	}
	if r.Intn(4) == 0 {
		c.Actors = append(c.Actors, genWall(r))
	}
	return c
}

// payloads are bodies of unsafe requests whose nonce is elsewhere: %s is the tag.
var payloads = []struct {
	name, ct, data string
	chunked, form  bool // form: the handler reads no raw body
}{
	{},
	{name: "JSON", ct: "application/json", data: `{"data":"%s"}`},
	{name: "JSON of unknown length", ct: "application/json; charset=utf-8", data: `{"data":"%s"}`, chunked: true},
	{name: "binary", ct: "application/octet-stream", data: "\x00\x01%s\xff&="},
	{name: "untyped", data: "data=%s"},
	{name: "plain text", ct: "text/plain", data: "data=%s", chunked: true},
	{name: "badly typed", ct: "a;b=;", data: "%s"},
	{name: "malformed form", ct: "application/x-www-form-urlencoded", data: "%%zz=1&data=%s", form: true},
	{name: "multipart without boundary", ct: "multipart/form-data", data: "%s", form: true},
	{name: "truncated multipart", ct: "multipart/form-data; boundary=BOUND", data: "--BOUND\r\nContent-Disposition: form-data; name=\"data\"\r\n\r\n%s", form: true},
	{name: "empty form", ct: "application/x-www-form-urlencoded", data: "", form: true},
}

type nonceRec struct {
	start, seen time.Duration // issuing request arrived / handler saw the nonce
	accepted    int
	presented   int // unsafe requests which presented it
	sure        int // of which no fault fired and the nonce cannot have expired
	unsure      int
	running     int
	denied      []string
}

func runCSRF(e *Env, c *Case, safety bool) {
	old := middleware.CSRFExpirationTime
	middleware.CSRFExpirationTime = time.Duration(max(1, c.C("exp"))) * time.Millisecond
	defer func() { middleware.CSRFExpirationTime = old }()
	exp := middleware.CSRFExpirationTime
	var nc cache.Cache
	var dc *distCache
	if c.I("stub") == 1 {
		dc = newDistCache(e, []time.Duration{0, time.Millisecond, 30 * time.Millisecond, 400 * time.Millisecond}[c.I("lat")%4])
		nc = dc
	} else {
		nc = cache.NewInMemory()
	}
	header, param := middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName
	var mw middleware.Middleware
	if c.I("custom") > 0 {
		header = []string{"X-My-Token", "x-my-token", "X-MY-TOKEN", "tOKEN"}[c.I("names")%4]
		param = []string{"my_nonce", "my nonce", "form[nonce]", "N&=1"}[(c.I("names")+c.I("custom"))%4]
		mw = middleware.CSRFPreventionWithCustomParamAndHeaderName(nc, param, header)
	} else {
		mw = middleware.CSRFPrevention(nc)
	}
	app := newApp(e, nil)
	app.Mux.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.PanicRecover(), mw)
	// each of the two properties reports its own kind of violation only
	avail := map[string]bool{"no-fresh-nonce": true, "nonce-repeated": true, "form-lost": true, "valid-denied": true, "safe-denied": true}
	fail := func(class, format string, a ...any) {
		if avail[class] != safety {
			e.Fail(class, format, a...)
		}
	}

	type reqInfo struct {
		tag       string
		presented string
		unsafe    bool
		start     time.Duration
		ran       int
		hold      int64
		end       int
		fault     bool
		body      string
		payload   string
		raw       string // the body, when it is no form
	}
	reqs := map[string]*reqInfo{}
	nonces := map[string]*nonceRec{}
	var order []string
	rngFail := map[string]bool{}
	simcrand.Fail = func() error {
		if rngFail[simrt.SelfName()] {
			e.Fault("entropy source fails")
			return errors.New("entropy source fails")
		}
		return nil
	}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		ri := reqs[mc.R.Header.Get("X-Sim")]
		if ri == nil {
			e.Bug("unknown request")
			return nil, errors.New("bug")
		}
		ri.ran++
		e.Check()
		now := e.W.Now()
		if ri.ran > 1 {
			e.Fail("handler-twice", "the handler ran %d times for request %s", ri.ran, ri.tag)
		}
		fresh := middleware.GetCSRFNonceFromContext(ctx)
		if fresh == "" {
			fail("no-fresh-nonce", "request %s reached the handler without a new nonce in its context", ri.tag)
		} else if _, dup := nonces[fresh]; dup {
			fail("nonce-repeated", "request %s got nonce %s, which was issued before", ri.tag, fresh)
		} else {
			nonces[fresh] = &nonceRec{start: ri.start, seen: now}
			order = append(order, fresh)
			e.Log("issued %s", fresh)
		}
		if ri.unsafe {
			rec := nonces[ri.presented]
			switch {
			case ri.presented == "":
				fail("no-nonce-accepted", "request %s (%s) was accepted without a nonce", ri.tag, mc.R.Method)
			case rec == nil || ri.presented == fresh:
				fail("forged-accepted", "request %s was accepted with nonce %q, which was never issued", ri.tag, ri.presented)
			default:
				rec.accepted++
				if rec.accepted > 1 {
					fail("nonce-replayed", "nonce %s was accepted %d times (last by %s)", ri.presented, rec.accepted, ri.tag)
				}
				if ri.start-rec.seen >= exp {
					fail("expired-accepted", "request %s sent %v after nonce %s was issued was accepted (lifetime %v)", ri.tag, ri.start-rec.seen, ri.presented, exp)
				}
			}
		}
		{
			if rngFail[simrt.SelfName()] || dc != nil && (dc.outage[simrt.SelfName()] || dc.addFail[simrt.SelfName()] > 0) {
				fail("failed-open", "request %s reached the handler although no fresh nonce could be stored", ri.tag)
			}
		}
		if ri.unsafe {
			if ri.body != "" {
				if got := mc.R.FormValue("data"); got != ri.body {
					fail("form-lost", "request %s: the handler reads form field %q instead of %q", ri.tag, got, ri.body)
				}
			}
		}
		if ri.raw != "" {
			if got, err := io.ReadAll(mc.R.Body); err != nil || string(got) != ri.raw {
				fail("form-lost", "request %s: the handler reads %q, %v as its body instead of %q", ri.tag, got, err, ri.raw)
			}
		}
		pause(ri.hold)
		switch ri.end {
		case 1:
			e.Fault("handler fails")
			return nil, errors.New("conflict")
		case 2:
			e.Fault("handler panics")
			panic("bug in the application")
		case 3:
			return response.PlainTextHttpResponse(409, fresh), nil
		}
		return response.PlainTextHttpResponseOK(fresh), nil
	}
	safeM := []string{"GET", "HEAD", "TRACE", "OPTIONS"}
	unsafeM := []string{"POST", "PUT", "PATCH", "DELETE", "PURGE"}
	for _, m := range append(append([]string{}, safeM...), unsafeM...) {
		app.Mux.HandleRequest(m, "/a", h)
		app.Mux.HandleRequest(m, "/b/{x}", h)
	}
	routes := []string{"/a", "/b/v"}

	rest, walls := splitActors(c, "jump")
	for _, w := range walls {
		e.wallJumps(w)
	}
	var done []*reqInfo
	for ai, ops := range rest {
		name := fmt.Sprintf("client%d", ai)
		e.Actor(name, func() {
			var mine []string
			for i, op := range ops {
				if op.K == "sleep" {
					pause(op.P["ms"])
					continue
				}
				if op.K == "flood" {
					e.W.MaxSteps += op.P["n"] * 2000
					for j := 0; j < op.I("n"); j++ {
						ri := &reqInfo{tag: fmt.Sprintf("%sn%d", tagOf(ai, i), j), start: e.W.Now()}
						reqs[ri.tag] = ri
						x := e.Serve(app.Mux, &ReqSpec{Method: "GET", Path: routes[op.I("route")%2], Header: hdr("X-Sim", ri.tag)})
						if x.Status != 200 || ri.ran != 1 {
							fail("safe-denied", "request %s (GET) was answered with %d and its handler ran %d times", ri.tag, x.Status, ri.ran)
							return
						}
						if e.Failed() {
							return
						}
					}
					e.Probe("many unused nonces")
					continue
				}
				ri := &reqInfo{tag: tagOf(ai, i), start: e.W.Now(), hold: op.P["hold"], end: op.I("end")}
				reqs[ri.tag] = ri
				spec := &ReqSpec{Path: routes[op.I("route")%2], Header: hdr("X-Sim", ri.tag), Variant: ai % 3}
				if op.K == "safe" {
					spec.Method = safeM[op.I("m")%4]
				} else {
					ri.unsafe = true
					spec.Method = unsafeM[op.I("m")%5]
					var nonce string
					pick := op.I("pick")
					switch op.I("src") % 8 {
					case 0, 1:
						if len(mine) > 0 {
							nonce = mine[len(mine)-1]
						}
					case 2, 3, 4:
						if len(order) > 0 {
							nonce = order[pick%len(order)]
						}
					case 5:
						nonce = strings.Repeat("0", 32)
					case 6:
						if len(mine) > 0 {
							n := mine[len(mine)-1]
							other := strings.ToLower(n)
							if other == n {
								other = strings.ToUpper(n)
							}
							nonce = []string{other + "x", n[:len(n)-1], n + "A", " " + n + "B", other, "0" + n}[pick%6]
						}
					case 7:
					}
					other := strings.Repeat("F", 32)
					ri.presented = nonce
					where := op.I("where") % 6
					form := url.Values{}
					inHeader := where == 0 || where == 4
					if inHeader {
						if nonce != "" {
							spec.Header.Set(header, nonce)
						}
						if op.I("both") == 1 {
							form.Set(param, other)
							if nonce == "" {
								ri.presented = other
							}
						}
					} else if nonce != "" {
						form.Set(param, nonce)
						if op.I("both") == 1 {
							spec.Header.Set(header, other)
							ri.presented = other
						}
					}
					// only POST, PUT and PATCH carry their form in the body
					inBody := spec.Method == "POST" || spec.Method == "PUT" || spec.Method == "PATCH"
					switch {
					case !inBody || where == 1 || where == 4:
						spec.Query = form.Encode()
						if pl := payloads[op.I("payload")%len(payloads)]; pl.name != "" {
							data := pl.data
							if strings.Contains(data, "%s") {
								data = fmt.Sprintf(data, ri.tag)
							}
							if pl.ct != "" {
								spec.Header.Set("Content-Type", pl.ct)
							}
							spec.Body = &simBody{e: e, data: []byte(data), chunk: 5, failAt: -1}
							spec.BodyLen = int64(len(data))
							if pl.chunked {
								spec.BodyLen = -1
							}
							if !pl.form {
								ri.raw = data
							}
							ri.payload = pl.name
							e.Probe("body which is not a readable form")
						}
					case where == 2 || where == 0 || where == 5:
						form.Set("data", ri.tag)
						ri.body = ri.tag
						enc := form.Encode()
						spec.Header.Set("Content-Type", "application/x-www-form-urlencoded")
						spec.Body = &simBody{e: e, data: []byte(enc), chunk: 5, failAt: -1}
						spec.BodyLen = int64(len(enc))
					case where == 3:
						form.Set("data", ri.tag)
						ri.body = ri.tag
						var sb strings.Builder
						for _, k := range []string{param, "data"} {
							if v := form.Get(k); v != "" {
								fmt.Fprintf(&sb, "--BOUND\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n%s\r\n", k, v)
							}
						}
						sb.WriteString("--BOUND--\r\n")
						spec.Header.Set("Content-Type", "multipart/form-data; boundary=BOUND")
						spec.Body = &simBody{e: e, data: []byte(sb.String()), chunk: 11, failAt: -1}
						spec.BodyLen = int64(sb.Len())
					}
				}
				{
					switch op.I("fault") {
					case 1:
						rngFail[name] = true
						ri.fault = true
					case 2:
						if dc != nil {
							dc.outage[name] = true
							ri.fault = true
						}
					case 3, 4:
						if dc != nil {
							dc.addFail[name] = op.I("fault") - 2
							ri.fault = true
						}
					}
				}
				if ri.end == 4 {
					// the client is gone before it reads the answer
					spec.Fault, spec.FaultAt = faultDisconnect, -1
				}
				rec := nonces[ri.presented]
				if rec != nil && ri.unsafe {
					rec.presented++
				}
				x := e.Serve(app.Mux, spec)
				rngFail[name] = false
				if dc != nil {
					dc.outage[name] = false
					dc.addFail[name] = 0
				}
				done = append(done, ri)
				e.Check()
				if x.Panic != nil {
					e.Fail("panic", "request %s panicked: %v", ri.tag, x.PanicText)
					return
				}
				e.Log("%s %s presented %q: status %d, handler ran %d times", ri.tag, spec.Method, ri.presented, x.Status, ri.ran)
				if ri.ran > 0 {
					if want := []int{200, 500, 500, 409, 200}[ri.end]; x.Status != want && ri.end != 4 {
						e.Fail("status", "request %s ran its handler but was answered with %d", ri.tag, x.Status)
					}
					if spec.Method != "HEAD" && (ri.end == 0 || ri.end == 3) {
						mine = append(mine, string(x.Body))
					}
					continue
				}
				if !ri.unsafe && !ri.fault {
					fail("safe-denied", "request %s (%s) was answered with %d and its handler did not run", ri.tag, spec.Method, x.Status)
					continue
				}
				want := 403
				if ri.fault {
					want = x.Status
				}
				if ri.end == 4 {
					want = x.Status
				}
				if !ri.unsafe {
					if x.Status < 400 && ri.end != 4 {
						e.Fail("status", "request %s did not reach its handler and was answered with %d", ri.tag, x.Status)
					}
					continue
				}
				if x.Status != want || x.Status == 200 {
					e.Fail("status", "request %s did not reach its handler and was answered with %d instead of 403", ri.tag, x.Status)
				}
				if rec == nil {
					continue
				}
				if ri.fault || e.W.Now()-rec.start >= exp {
					rec.unsure++
				} else {
					rec.sure++
					rec.denied = append(rec.denied, fmt.Sprintf("%s (%s %s, nonce in %s)", ri.tag, spec.Method, ri.payload, []string{"header", "query", "urlencoded body", "multipart body", "header", "urlencoded body"}[op.I("where")%6]))
				}
			}
		})
	}
	if !e.MustFinish(1000*time.Hour, "stuck") {
		return
	}
	for _, n := range order {
		rec := nonces[n]
		if rec.presented > 0 {
			e.Check()
		}
		if rec.presented > 1 {
			e.Probe("nonce presented more than once")
		}
		if rec.sure > 0 && rec.accepted == 0 && rec.unsure == 0 {
			fail("valid-denied", "nonce %s was issued, unexpired and unused, and yet no request presenting it was accepted: %s", n, strings.Join(rec.denied, ", "))
		}
	}
	for _, ri := range done {
		if ri.fault {
			e.Probe("request with a failing dependency")
		}
	}
	_ = http.StatusOK
}
