package harness

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
)

// C02 response integrity, C12 compression transparency, C13 fault reporting,
// C17 error mapping, C20 hijacking.

func init() {
	register(&Scenario{Prop: "C02", Near: true, Gen: genC02, Run: runC02,
		Rule: "A case is 2-6 clients sending 1-5 requests each through one mux; every handler answers with its own response of one of 12 kinds (status, headers, cookies, size and chunking drawn per request, built through the constructors or added late, with pooled header and cookie maps), some requests panic, fail, lose their connection or stall; every other response is compared byte for byte with what its own handler specified."})
	register(&Scenario{Prop: "C12", Near: true, Gen: genC12, Run: runC12,
		Rule: "As C02, behind CompressResponse with a random level, with Accept-Encoding variants, flushes inside the body, handler-set Content-Length, pre-encoded content and bodiless responses; the decoded response must equal the specification and flushed bytes must be decodable by the client at that moment."})
	register(&Scenario{Prop: "C13", Near: true, Gen: genC13, Run: runC13,
		Rule: "As C02, but connections reset, disconnect or write short at random offsets and response sources fail at random offsets, with and without compression; the delivered bytes must be a prefix of the specified ones and each failure must be logged exactly once."})
	register(&Scenario{Prop: "C17", Near: true, Gen: genC17, Run: runC17,
		Rule: "A case is 2-6 clients sending requests to routes with no error middleware, ErrJsonResponse or a custom ErrResponse whose handlers and middlewares succeed or fail with each kind of error (some together with a response), and to unknown paths and methods; status, body and log are compared with the error that very request failed with."})
	register(&Scenario{Prop: "C20", Near: true, Gen: genC20, Run: runC20,
		Rule: "A case is 2-5 clients whose requests are answered by a hijacking response or a text response behind a random stack of CompressResponse, SecurityHeaders, Cors, RequestDumper, ErrJsonResponse and PanicRecover, on connections which can and cannot be taken over."})
}

var respMethods = []string{"GET", "POST", "HEAD"}

func genRespOps(r *Rng, c *Case, n, per int, f func(p map[string]int64)) {
	for a := 0; a < n; a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(per); i++ {
			p := P("m", []int64{0, 0, 0, 1, 1, 2}[r.Intn(6)], "var", r.Intn(3), "pre", r.Intn(3), "hold", r.Intn(3)*r.Intn(2))
			genResp(r, p, false)
			if r.Intn(4) == 0 {
				p["stall"] = int64(1 + r.Intn(3))
			}
			f(p)
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
}

func reqSpecOf(op Op, path, tag string) *ReqSpec {
	return &ReqSpec{Method: respMethods[op.I("m")%3], Path: path, Header: hdr("X-Sim", tag), Variant: op.I("var") % 3,
		Stall: time.Duration(op.I("stall")) * 50 * time.Millisecond}
}

func genC02(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("mw", r.Intn(4))}
	genRespOps(r, c, 2+r.Intn(5), 5, func(p map[string]int64) {
		if r.Intn(5) == 0 {
			p["bad"] = int64(1 + r.Intn(4))
			p["at"] = int64(r.Intn(3000)) - 1
			p["fail"] = int64(1 + r.Intn(2000))
			if p["bad"] == 3 && r.Intn(2) == 0 {
				p["kind"] = []int64{rkJson, rkTemplate}[r.Intn(2)]
			}
		}
	})
	return c
}

func runC02(e *Env, c *Case) {
	app := newApp(e, nil)
	type rq struct {
		op   Op
		spec respSpec
		runs int
	}
	reqs := map[string]*rq{}
	sec := c.I("mw") == 1
	own := c.I("mw") >= 2
	if sec {
		app.Mux.CommonMiddlewares(middleware.SecurityHeaders(middleware.SecurityHeadersConfig{BlockContentSniffingEnabled: true, XSSProtectionEnabled: true}))
	}
	if own {
		app.Mux.CommonMiddlewares(mwFunc(func(ctx context.Context, mc MC, next handlerFunc) (Resp, error) {
			resp, err := next(ctx, mc)
			if err == nil {
				tag := mc.R.Header.Get("X-Sim")
				resp.Headers().Set("X-Mw", tag)
				simrt.Yield()
				resp.Cookies().Add(&http.Cookie{Name: "mw", Value: tag})
			}
			return resp, err
		}))
	}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		rq := reqs[mc.R.Header.Get("X-Sim")]
		rq.runs++
		pause(rq.op.P["pre"] * 10)
		switch rq.op.I("bad") {
		case 1:
			hh := response.NewHttpHeaders()
			hh.Set("X-Leak", rq.spec.Tag)
			ck := response.NewHttpCookie(&http.Cookie{Name: "leak", Value: rq.spec.Tag})
			_ = ck
			e.Fault("handler panics")
			panic("simulated panic " + rq.spec.Tag)
		case 2:
			resp := rq.spec.build(e)
			e.Fault("handler fails")
			return resp, errors.New("simulated failure " + rq.spec.Tag)
		}
		resp := rq.spec.build(e)
		pause(rq.op.P["hold"] * 10)
		return resp, nil
	}
	for _, m := range respMethods {
		app.Mux.HandleRequest(m, "/r/{id}", h)
	}
	for ai, ops := range c.Actors {
		e.Actor(fmt.Sprintf("client%d", ai), func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				rq := &rq{op: op, spec: specOf(op, tag)}
				bad := op.I("bad")
				if bad != 3 {
					rq.spec.FailAt = -1
				}
				rq.spec.BadObj = bad == 3 && (rq.spec.Kind == rkJson || rq.spec.Kind == rkTemplate)
				reqs[tag] = rq
				spec := reqSpecOf(op, "/r/"+tag, tag)
				if bad == 4 {
					spec.Fault, spec.FaultAt = faultReset, op.P["at"]
				}
				x := e.Serve(app.Mux, spec)
				e.Log("%s %s: status %d, %d bytes, panic %v", tag, spec.Method, x.Status, len(x.Body), x.Panic != nil)
				if bad != 0 {
					continue
				}
				if rq.runs != 1 {
					e.Fail("response", "request %s: the handler ran %d times", tag, rq.runs)
				}
				extra := http.Header{}
				if sec {
					extra.Set("X-Content-Type-Options", "nosniff")
					extra.Set("X-Xss-Protection", "1; mode=block")
				}
				if own {
					extra.Set("X-Mw", tag)
					extra.Set("Set-Cookie", "mw="+tag)
				}
				if !e.checkWire("response", x, &rq.spec, spec.Method, extra) {
					return
				}
			}
		})
	}
	if !e.MustFinish(100*time.Hour, "stuck") {
		return
	}
	faulty := 0
	for _, rq := range reqs {
		if rq.op.I("bad") != 0 {
			faulty++
		}
	}
	if len(app.Errs) > faulty {
		e.Fail("error-log", "%d errors were logged, but only %d requests had a fault: %q", len(app.Errs), faulty, app.Errs)
	}
}

// --- C12

var acceptEncodings = []string{"", "gzip", "deflate", "gzip, deflate", "deflate, gzip", "br", "identity", "GZIP", "br, deflate", " gzip ", "deflate,gzip;q=0", "br;q=1.0, gzip;q=0, *;q=0"}

// encodingFor returns the content codings which may be used and whether one
// has to be.
func encodingFor(ae string) (may map[string]bool, must string) {
	may = map[string]bool{"": true}
	for _, t := range strings.Split(strings.ToLower(ae), ",") {
		t = strings.TrimSpace(t)
		if t == "gzip" || t == "deflate" {
			may[t] = true
			if must == "" || t == "gzip" {
				must = t
			}
		}
	}
	return
}

func genC12(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("level", r.Intn(11)-1)}
	if r.Intn(2) == 0 {
		c.Cfg["level"] = int64([]int{1, -1, 0}[r.Intn(3)])
	} else if r.Intn(20) == 0 {
		c.Cfg["level"] = int64([]int{-3, -100, 10, 1 << 40}[r.Intn(4)]) // there is no such level
	}
	genRespOps(r, c, 1+r.Intn(4), 3, func(p map[string]int64) {
		p["ae"] = int64(r.Intn(len(acceptEncodings)))
		if r.Intn(2) == 0 {
			p["ae"] = int64(1 + r.Intn(5))
		}
		if r.Intn(3) == 0 {
			p["cl"] = 1
		}
		if r.Intn(3) == 0 {
			p["kind"] = []int64{rkRaw, rkAdaptFunc, rkRaw}[r.Intn(3)]
			p["flush"] = 1
		}
		if r.Intn(5) == 0 {
			p["enc"] = 1
		}
		if r.Intn(12) == 0 {
			p["bad"] = 1
		}
		if r.Intn(8) == 0 {
			// a client that loses its connection, for the others to be unaffected
			p["fault"], p["at"], p["buf"] = int64(1+r.Intn(4)), int64(r.Intn(60))-1, []int64{0, 1, 64}[r.Intn(3)]
		}
	})
	return c
}

func runC12(e *Env, c *Case) {
	app := newApp(e, nil)
	app.Mux.CommonMiddlewares(middleware.CompressResponse(int(c.C("level"))))
	type rq struct {
		op   Op
		spec respSpec
		rw   *RW
		ae   string
	}
	reqs := map[string]*rq{}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		rq := reqs[mc.R.Header.Get("X-Sim")]
		pause(rq.op.P["pre"])
		if rq.op.I("bad") == 1 {
			e.Fault("handler fails")
			return nil, errors.New("simulated failure")
		}
		return rq.spec.build(e), nil
	}
	for _, m := range respMethods {
		app.Mux.HandleRequest(m, "/r/{id}", h)
	}
	for ai, ops := range c.Actors {
		e.Actor(fmt.Sprintf("client%d", ai), func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				rq := &rq{op: op, spec: specOf(op, tag), ae: acceptEncodings[op.I("ae")%len(acceptEncodings)]}
				s := &rq.spec
				s.FailAt = -1
				s.PreEnc = op.I("enc") == 1
				reqs[tag] = rq
				spec := reqSpecOf(op, "/r/"+tag, tag)
				if rq.ae != "" {
					spec.Header.Set("Accept-Encoding", rq.ae)
				}
				spec.OnWriter = func(rw *RW) { rq.rw = rw }
				if spec.Variant != varPlain && spec.Method != "HEAD" {
					s.afterFlush = func(n int) {
						e.Check()
						enc := rq.rw.snap.Get("Content-Encoding")
						got := decodePrefix(enc, rq.rw.Delivered.Bytes())
						if len(got) < n {
							e.Fail("flush-lost", "request %s: after a flush the client can decode %d of the %d bytes written (%q)", tag, len(got), n, enc)
						}
					}
				}
				if op.I("fault") > 0 {
					s.afterFlush = nil
					spec.Fault, spec.FaultAt, spec.BufSize = op.I("fault")%5, op.P["at"], op.I("buf")
				}
				x := e.Serve(app.Mux, spec)
				enc := x.Header.Get("Content-Encoding")
				e.Log("%s %s: status %d, %d bytes, encoding %q", tag, spec.Method, x.Status, len(x.Body), enc)
				if op.I("fault") > 0 {
					if x.Panic != nil {
						e.Fail("transparent", "request %s: ServeHTTP panicked when the connection failed: %v", tag, x.PanicText)
						return
					}
					continue
				}
				noLevel := c.C("level") < -2 || c.C("level") > 9
				if noLevel && x.Panic != nil {
					e.Fail("level", "request %s: ServeHTTP panicked with the level %d: %v", tag, c.C("level"), x.PanicText)
					return
				}
				if noLevel && x.Status == 500 && len(x.Body) == 0 && enc == "" {
					e.Probe("unsupported level refused")
					continue // or it is sent in some other way
				}
				if op.I("bad") == 1 {
					if x.Status != 500 || len(x.Body) != 0 || enc != "" {
						e.Fail("transparent", "request %s failed with an error but got status %d and %d bytes (encoding %q)", tag, x.Status, len(x.Body), enc)
					}
					continue
				}
				if s.PreEnc && s.hasEncHeader() {
					// already encoded by the application: to be passed on as it is
					e.Check()
					if enc != "x-app" {
						e.Fail("transparent", "request %s: content encoded by the application is declared %q", tag, enc)
						return
					}
					x.Header = x.Header.Clone()
					x.Header.Del("Content-Encoding")
				} else {
					may, must := encodingFor(rq.ae)
					if !may[enc] {
						e.Fail("negotiation", "request %s: Content-Encoding %q for Accept-Encoding %q", tag, enc, rq.ae)
						return
					}
					if enc != must && len(x.Body) > 0 {
						e.Fail("negotiation", "request %s: a body of %d bytes is sent with Content-Encoding %q for Accept-Encoding %q", tag, len(x.Body), enc, rq.ae)
						return
					}
				}
				if !e.checkWire("transparent", x, s, spec.Method, nil, "Content-Encoding", "Vary") {
					return
				}
			}
		})
	}
	if !e.MustFinish(100*time.Hour, "stuck") {
		return
	}
	faulty := map[string]bool{}
	for ai, ops := range c.Actors {
		for _, op := range ops {
			if op.I("fault") > 0 {
				faulty[fmt.Sprintf("client%d", ai)] = true
			}
		}
	}
	for i, err := range app.Errs {
		if c.C("level") < -2 || c.C("level") > 9 {
			break
		}
		if !strings.Contains(err, "simulated failure") && !faulty[app.By[i]] {
			e.Fail("error-log", "a request without a fault logged %q", err)
		}
	}
}

// --- C13

func genC13(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("compress", r.Intn(2), "level", r.Intn(3)-1)}
	genRespOps(r, c, 1+r.Intn(4), 4, func(p map[string]int64) {
		for k := p["kind"]; k == rkRedirect || k == rkAdaptFunc || k == rkAdaptHandler; k = p["kind"] {
			p["kind"] = int64(r.Intn(nRespKinds))
		}
		p["ae"] = int64(r.Intn(4))
		switch r.Intn(6) {
		case 0, 1, 2:
			p["fault"] = int64(1 + r.Intn(4))
			p["at"] = int64(r.Intn(int(p["size"])+50)) - 1
			p["grace"] = int64(r.Intn(3))
			p["buf"] = []int64{0, 1, 64, 512}[r.Intn(4)]
		case 3:
			p["fail"] = int64(1 + r.Intn(int(p["size"])+10))
			p["badobj"] = 1
		}
	})
	if r.Intn(25) == 0 {
		// a burst: one of the requests is sent many times, without a pause
		a := r.Intn(len(c.Actors))
		o := c.Actors[a][len(c.Actors[a])-1]
		for k := []int{12, 30, 70, 130}[r.Intn(4)]; k > 0; k-- {
			o2 := Op{K: o.K, P: map[string]int64{}}
			for x, v := range o.P {
				o2.P[x] = v
			}
			o2.P["pre"], o2.P["hold"], o2.P["stall"] = 0, 0, 0
			c.Actors[a] = append(c.Actors[a], o2)
		}
	}
	return c
}

func runC13(e *Env, c *Case) {
	app := newApp(e, nil)
	if c.I("compress") == 1 {
		app.Mux.CommonMiddlewares(middleware.CompressResponse(int(c.C("level"))))
	}
	type rq struct {
		op   Op
		spec respSpec
	}
	reqs := map[string]*rq{}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		rq := reqs[mc.R.Header.Get("X-Sim")]
		pause(rq.op.P["pre"])
		return rq.spec.build(e), nil
	}
	for _, m := range respMethods {
		app.Mux.HandleRequest(m, "/r/{id}", h)
	}
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				rq := &rq{op: op, spec: specOf(op, tag)}
				s := &rq.spec
				if s.Kind == rkRedirect || s.Kind == rkAdaptFunc || s.Kind == rkAdaptHandler {
					continue
				}
				s.BadObj = op.I("badobj") == 1 && (s.Kind == rkJson || s.Kind == rkTemplate)
				reqs[tag] = rq
				spec := reqSpecOf(op, "/r/"+tag, tag)
				spec.Fault, spec.FaultAt, spec.Grace, spec.BufSize = op.I("fault")%5, op.P["at"], op.I("grace"), op.I("buf")
				if ae := acceptEncodings[op.I("ae")%4]; ae != "" {
					spec.Header.Set("Accept-Encoding", ae)
				}
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, spec)
				logged := app.errsBy(me)[before:]
				e.Check()
				e.Log("%s %s %s: status %d, %d bytes, %d write errors, source failed %v, logged %d", tag, spec.Method, respKindNames[s.Kind], x.Status, len(x.Body), x.RW.WriteErrs, s.Failed, len(logged))
				where := fmt.Sprintf("request %s (%s response, Accept-Encoding %q, level %d)", tag, respKindNames[s.Kind], spec.Header.Get("Accept-Encoding"), c.C("level"))
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", where, x.PanicText)
					return
				}
				if x.RW.Superfluous > 0 {
					e.Fail("prefix", "%s: the status line was written %d more times", where, x.RW.Superfluous)
					return
				}
				if !x.RW.FaultFired && !s.Failed {
					if !e.checkWire("intact", x, s, spec.Method, nil, "Content-Encoding", "Vary") {
						return
					}
				} else if x.Status != 0 {
					e.Probe("response with a fault")
					if x.Status != s.wantStatus() {
						e.Fail("prefix", "%s: status %d instead of %d", where, x.Status, s.wantStatus())
						return
					}
					if d := hdrDiff(x.Header, s.wantHeader(spec.Method), "Content-Encoding", "Vary"); d != "" {
						e.Fail("prefix", "%s: %s", where, d)
						return
					}
					got := decodePrefix(x.Header.Get("Content-Encoding"), x.Body)
					want := s.wantBody(spec.Method)
					if s.BadObj && s.Kind == rkJson {
						want = nil
					} else if s.Kind == rkJson || s.Kind == rkJsonErr {
						want = append(want, '\n')
					}
					if !bytes.HasPrefix(want, got) {
						e.Fail("prefix", "%s: the delivered bytes are no prefix of the response: %s", where, bodyDiff(got, want))
						return
					}
				}
				if !bodyAllowed(s.wantStatus()) || spec.Method == "HEAD" && !s.Failed {
					if len(logged) > 0 {
						e.Fail("error-log", "%s: a bodiless response logged %q", where, logged[0])
					}
					continue
				}
				want := 0
				if x.RW.WriteErrs > 0 || s.Failed {
					want = 1
				}
				if len(logged) != want {
					e.Fail("error-log", "%s: %d writes failed, source failed: %v, and %d errors were logged instead of %d: %q", where, x.RW.WriteErrs, s.Failed, len(logged), want, logged)
					return
				}
				if want == 1 {
					e.Probe("failure logged")
				}
			}
		})
	}
	e.MustFinish(100*time.Hour, "stuck")
}

// --- C17

const nErrKinds = 10

func mkErr(k int, tag string) (err error, status int, text string) {
	text = "failure of " + tag
	switch k / nErrKinds {
	case 1:
		text += " at 100%d \"quoted\" <b>&é\u2028\nsecond line\\"
	case 2:
		text += strings.Repeat(" and more", 700)
	}
	k %= nErrKinds
	switch k {
	case 1:
		return gerrors.NewBadRequestWithMessage(text), 400, text
	case 2:
		return gerrors.NewObjectNotFoundWithMessage(text), 404, text
	case 3:
		return gerrors.ErrUnauthorizedRequest, 401, "unauthorized request"
	case 4:
		return gerrors.ErrAccessDenied, 403, "access denied"
	case 5:
		return gerrors.ErrWrongCredentials, 403, "wrong credentials"
	case 6:
		return gerrors.NewBadRequest(errors.New(text)), 400, text
	case 7:
		return gerrors.NewObjectNotFound(errors.New(text)), 404, text
	case 8:
		// errors of the standard library that handlers pass on
		l := append([]error{http.ErrAbortHandler, http.ErrHandlerTimeout, http.ErrNoCookie, io.EOF}, sourceErrs...)
		err := errAt(l, int64(len(tag))+int64(tag[len(tag)-1])+int64(len(text)))
		return err, 500, err.Error()
	case 9:
		// the application's own errors with the texts of gofre's
		err := errors.New([]string{"access denied", "unauthorized request", "wrong credentials", "bad request", "object not found"}[len(text)%5])
		return err, 500, err.Error()
	}
	return errors.New(text), 500, text
}

func genC17(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("outer", r.Intn(3))}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(5); i++ {
			p := P("m", r.Intn(2), "var", r.Intn(3), "route", r.Intn(3), "err", r.Intn(nErrKinds*3), "where", r.Intn(6), "gone", r.Intn(4)/3*r.Intn(2), "resp", r.Intn(2), "same", r.Intn(3)/2, "pre", r.Intn(3), "hold", r.Intn(3)*r.Intn(2), "deco", r.Intn(3))
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

type c17Req struct {
	op     Op
	tag    string
	runs   int
	cancel context.CancelFunc

	decorated bool // by a middleware outside of the error middleware
}

// errTag is what the text of the request's error names: some errors of several
// requests have the same text, whatever their kinds.
func (q *c17Req) errTag() string {
	if q.op.I("same") == 1 {
		return "something"
	}
	return q.tag
}

// foreignOut names the header of the outer middleware that the answer should
// not have, or has not.
func foreignOut(h http.Header, q *c17Req) string {
	got := map[string]string{}
	for k, v := range h {
		if strings.HasPrefix(strings.ToLower(k), "x-out") {
			got[strings.ToLower(k)] = strings.Join(v, "|")
		}
	}
	want := map[string]string{}
	if q.decorated && q.op.I("where") != 3 {
		want["x-out-"+strings.ToLower(q.tag)] = q.tag
		if q.op.I("deco") == 2 {
			want["x-out"] = q.tag
		}
	}
	for k, v := range got {
		if want[k] != v {
			return k + ": " + v
		}
	}
	for k := range want {
		if got[k] == "" {
			return "no " + k
		}
	}
	return ""
}

func runC17(e *Env, c *Case) {
	app := newApp(e, nil)
	reqs := map[string]*c17Req{}
	// where: 0 ok, 1 handler, 2 middleware inside the error middleware, 3
	// middleware outside of it, 4 unknown path, 5 unknown method
	failing := func(at int) middleware.Middleware {
		return mwFunc(func(ctx context.Context, mc MC, next handlerFunc) (Resp, error) {
			rq := reqs[mc.R.Header.Get("X-Sim")]
			resp, err := next(ctx, mc)
			if rq.op.I("where") == at && err == nil {
				ferr, _, _ := mkErr(rq.op.I("err"), rq.errTag())
				e.Fault("middleware fails")
				if rq.op.I("resp") == 0 {
					resp = nil
				}
				return resp, ferr
			}
			return resp, err
		})
	}
	// what an outer middleware adds to the answer, whoever made it
	decorate := mwFunc(func(ctx context.Context, mc MC, next handlerFunc) (Resp, error) {
		rq := reqs[mc.R.Header.Get("X-Sim")]
		resp, err := next(ctx, mc)
		if deco := rq.op.I("deco"); deco > 0 && resp != nil && err == nil {
			rq.decorated = true
			resp.Headers().Set("X-Out-"+rq.tag, rq.tag)
			if deco == 2 {
				pause(rq.op.P["hold"])
				resp.Headers().Set("X-Out", rq.tag)
			}
		}
		return resp, err
	})
	app.Mux.CommonMiddlewares(failing(3), decorate)
	h := func(ctx context.Context, mc MC) (Resp, error) {
		rq := reqs[mc.R.Header.Get("X-Sim")]
		rq.runs++
		pause(rq.op.P["pre"])
		if rq.op.I("gone") == 1 {
			e.Fault("client gone before the answer")
			rq.cancel()
			pause(0)
		}
		resp := response.PlainTextHttpResponse(200, "ok "+rq.tag)
		if rq.op.I("where") == 1 {
			err, _, _ := mkErr(rq.op.I("err"), rq.errTag())
			e.Fault("handler fails")
			pause(rq.op.P["hold"])
			if rq.op.I("resp") == 1 {
				return resp, err
			}
			return nil, err
		}
		return resp, nil
	}
	custom := middleware.ErrResponse(func(code int, err error) response.HttpResponse {
		simrt.Yield()
		return response.PlainTextHttpResponseWithHeaders(code, "custom: "+err.Error(), response.HttpHeaders{"X-Err": "1"})
	})
	for _, m := range []string{"GET", "POST"} {
		app.Mux.HandleRequest(m, "/plain/{id}", h, failing(2))
		app.Mux.HandleRequest(m, "/json/{id}", h, middleware.ErrJsonResponse(), failing(2))
		app.Mux.HandleRequest(m, "/custom/{id}", h, custom, failing(2))
	}
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				rq := &c17Req{op: op, tag: tag}
				reqs[tag] = rq
				route := op.I("route") % 3
				where := op.I("where") % 6
				path := []string{"/plain/", "/json/", "/custom/"}[route] + tag
				method := []string{"GET", "POST"}[op.I("m")%2]
				if where == 4 {
					path = []string{"/nothing/" + tag, "/json", "/", "/json/a/" + tag}[op.I("err")%4]
				}
				if where == 5 {
					method = []string{"DELETE", "PURGE"}[op.I("err")%2]
				}
				spec := &ReqSpec{Method: method, Path: path, Header: hdr("X-Sim", tag), Variant: op.I("var"), OnCancel: func(c context.CancelFunc) { rq.cancel = c }}
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, spec)
				logged := app.errsBy(me)[before:]
				e.Check()
				e.Log("%s %s %s: status %d body %q logged %d", tag, method, path, x.Status, x.Body, len(logged))
				_, code, text := mkErr(op.I("err"), rq.errTag())
				wantStatus, wantBody, wantLog, wantRuns := 200, "ok "+tag, "", 1
				caught := route != 0 && (where == 1 || where == 2)
				switch {
				case where == 4 || where == 5:
					wantStatus, wantBody, wantRuns = 404, "", 0
				case where == 0:
				case caught && route == 1:
					b, _ := json.Marshal(map[string]string{"error": text})
					wantStatus, wantBody = code, string(b)
				case caught:
					wantStatus, wantBody = code, "custom: "+text
				default:
					wantStatus, wantBody, wantLog = 500, "", text
				}
				gone := op.I("gone") == 1 && rq.runs > 0 // what is written then may fail
				at := fmt.Sprintf("request %s (%s %s, fails with %q at %s)", tag, method, path, text, []string{"no point", "the handler", "an inner middleware", "an outer middleware", "routing (unknown path)", "routing (unknown method)"}[where])
				switch {
				case x.Panic != nil:
					e.Fail("status", "%s: ServeHTTP panicked: %v", at, x.PanicText)
				case x.Status != wantStatus && !gone:
					e.Fail("status", "%s: status %d instead of %d", at, x.Status, wantStatus)
				case string(x.Body) != wantBody && !gone && !(caught && route == 1 && sameJSON(x.Body, wantBody)):
					e.Fail("body", "%s: body %q instead of %q", at, trunc(string(x.Body)), trunc(wantBody))
				case !x.Complete && !gone:
					e.Fail("body", "%s: the response is incomplete", at)
				case x.RW.Superfluous > 0:
					e.Fail("status", "%s: the status line was written %d more times", at, x.RW.Superfluous)
				case rq.runs != wantRuns:
					e.Fail("handler-runs", "%s: the handler ran %d times instead of %d", at, rq.runs, wantRuns)
				case wantLog == "" && len(logged) > 0 && !(gone && caught || gone && where == 0):
					e.Fail("error-log", "%s: logged %q", at, logged)
				case wantLog != "" && (len(logged) != 1 || !strings.Contains(logged[0], wantLog)):
					e.Fail("error-log", "%s: the log got %q instead of one entry with the error", at, logged)
				case gone:
					continue
				case foreignOut(x.Header, rq) != "":
					e.Fail("decoration", "%s: an outer middleware set its header only for this request, and the answer carries %s", at, foreignOut(x.Header, rq))
				case caught && route == 1 && x.Header.Get("Content-Type") != "application/json":
					e.Fail("body", "%s: the JSON error is sent as %q", at, x.Header.Get("Content-Type"))
				case (x.Header.Get("X-Err") == "1") != (caught && route == 2):
					e.Fail("body", "%s: header X-Err is %q", at, x.Header.Get("X-Err"))
				default:
					continue
				}
				return
			}
		})
	}
	e.MustFinish(100*time.Hour, "stuck")
}

// --- C20

func genC20(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("stack", r.Intn(64), "rot", r.Intn(6), "level", r.Intn(3)-1)}
	for a := 0; a < 2+r.Intn(4); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(4); i++ {
			ops = append(ops, Op{K: "req", P: P("text", r.Intn(4)/3, "var", []int{0, 0, 1, 2}[r.Intn(4)], "ae", r.Intn(4), "origin", r.Intn(2), "hjfail", r.Intn(6)/5, "pre", r.Intn(3), "hold", r.Intn(4), "keep", r.Intn(3)/2, "sends", r.Intn(4), "ahead", r.Intn(200), "idle", []int{0, 0, 0, 0, 5000, 70000, 7200000, 90000000}[r.Intn(8)])})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func runC20(e *Env, c *Case) {
	app := newApp(e, nil)
	all := []middleware.Middleware{
		middleware.CompressResponse(int(c.C("level"))),
		middleware.SecurityHeaders(middleware.SecurityHeadersConfig{BlockContentSniffingEnabled: true, XSSProtectionEnabled: true, ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOptionHeaderValue: "DENY"}}),
		middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET"}, SupportsCredentials: true}),
		middleware.RequestDumper(func(string) { simrt.Yield() }),
		middleware.ErrJsonResponse(),
		middleware.PanicRecover(),
	}
	var names []string
	for i := range all {
		j := (i + c.I("rot")) % len(all)
		if c.I("stack")>>j&1 == 1 {
			app.Mux.CommonMiddlewares(all[j])
			names = append(names, []string{"CompressResponse", "SecurityHeaders", "Cors", "RequestDumper", "ErrJsonResponse", "PanicRecover"}[j])
		}
	}
	stack := "[" + strings.Join(names, " ") + "]"
	type rq struct {
		op    Op
		tag   string
		calls int
		err   error
		conn  net.Conn
		rw    *RW

		frames bool
		got    string // what the application read
	}
	reqs := map[string]*rq{}
	app.Mux.HandleGet("/ws/{id}", func(ctx context.Context, mc MC) (Resp, error) {
		rq := reqs[mc.R.Header.Get("X-Sim")]
		pause(rq.op.P["pre"])
		if rq.op.I("text") == 1 {
			return response.PlainTextHttpResponseOK("text " + rq.tag), nil
		}
		return response.NewHttpHijackConnectionResponse(func(conn net.Conn, brw *bufio.ReadWriter, err error) {
			rq.calls++
			rq.err, rq.conn = err, conn
			if conn == nil {
				return
			}
			serve := func() {
				sc, _ := conn.(*simConn)
				read := func(f func()) {
					if sc != nil {
						sc.mayRead = true
						defer func() { sc.mayRead = false }()
					}
					f()
				}
				for k := int64(0); k < rq.op.P["sends"]; k++ {
					read(func() {
						line, _ := brw.ReadString('\n')
						rq.got += line
					})
				}
				pause(rq.op.P["idle"]) // nothing to tell for a while
				for k := int64(0); k < rq.op.P["hold"]; k++ {
					fmt.Fprintf(brw, "frame %d of %s;", k, rq.tag)
					brw.Flush()
					pause(rq.op.P["hold"])
				}
				read(func() {
					rest, _ := io.ReadAll(brw)
					rq.got += string(rest)
				})
				rq.frames = true
				fmt.Fprintf(brw, "not flushed")
			}
			if rq.op.I("keep") == 1 {
				// the application goes on using it after the request
				simrt.Go("app", func() {
					pause(50)
					serve()
				})
				return
			}
			serve()
		}), nil
	})
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				rq := &rq{op: op, tag: tag}
				reqs[tag] = rq
				spec := &ReqSpec{HijackFails: op.I("hjfail") == 1, Method: "GET", Path: "/ws/" + tag, Header: hdr("X-Sim", tag), Variant: op.I("var") % 3, OnWriter: func(rw *RW) { rq.rw = rw }}
				sent := ""
				for k := 0; k < op.I("sends"); k++ {
					sent += fmt.Sprintf("message %d from %s to the application\n", k, tag)
				}
				cut := op.I("ahead")
				if cut > len(sent) {
					cut = len(sent)
				}
				spec.Ahead, spec.Later = sent[:cut], sent[cut:]
				if ae := acceptEncodings[op.I("ae")%4]; ae != "" {
					spec.Header.Set("Accept-Encoding", ae)
				}
				if op.I("origin") == 1 {
					spec.Header.Set("Origin", "https://other.example")
				}
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, spec)
				logged := app.errsBy(me)[before:]
				e.Check()
				e.Log("%s: calls %d err %v status %d", tag, rq.calls, rq.err, x.Status)
				at := fmt.Sprintf("request %s behind %s (Accept-Encoding %q)", tag, stack, spec.Header.Get("Accept-Encoding"))
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", at, x.PanicText)
					return
				}
				if len(logged) > 0 {
					e.Fail("error-log", "%s: logged %q", at, logged)
					return
				}
				if op.I("text") == 1 {
					b, err := decodeBody(x)
					if err != nil || string(b) != "text "+tag || x.Status != 200 {
						e.Fail("text", "%s: text response is %d %q (%v)", at, x.Status, b, err)
						return
					}
					continue
				}
				if rq.calls != 1 {
					e.Fail("callback", "%s: the hijack callback ran %d times", at, rq.calls)
					return
				}
				if spec.Variant != varH1 || spec.HijackFails {
					if rq.err == nil || rq.conn != nil {
						e.Fail("callback", "%s: the connection cannot be taken over and the callback got no error", at)
					} else if len(x.Body) > 0 {
						e.Fail("extra-bytes", "%s: the connection cannot be taken over and %d bytes were sent", at, len(x.Body))
					}
					continue
				}
				e.Probe("connection taken over")
				if rq.err != nil || rq.conn == nil {
					e.Fail("callback", "%s: the callback did not get the connection: %v", at, rq.err)
					return
				}
				want := ""
				for k := int64(0); k < op.P["hold"]; k++ {
					want += fmt.Sprintf("frame %d of %s;", k, tag)
				}
				for op.I("keep") == 1 && !rq.frames {
					pause(20 + op.P["idle"]/10)
				}
				sc := rq.conn.(*simConn)
				if sc.touched != "" {
					e.Fail("touched", "%s: the framework called %s on the connection it handed over", at, sc.touched)
					return
				}
				if rq.got != sent {
					e.Fail("lost-bytes", "%s: the client sent %q, of which the server had read %d bytes, and the application got %q", at, sent, cut, rq.got)
					return
				}
				got := sc.out.String()
				if got != want || rq.rw.Delivered.Len() > 0 || rq.rw.AfterHijack > 0 {
					e.Fail("extra-bytes", "%s: the application wrote %q; the connection carried %q, the response %d bytes, and the writer was used %d times after it was taken over", at, want, got, rq.rw.Delivered.Len(), rq.rw.AfterHijack)
					return
				}
			}
		})
	}
	e.MustFinish(1000*time.Hour, "stuck")
}
