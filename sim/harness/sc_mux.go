package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
)

// C03 middleware order and derived muxes, C04 panics.

func init() {
	register(&Scenario{Prop: "C03", Gen: genC03, Run: runC03,
		Rule: "A case is a program of 4-24 Clone, RouteUsingPathPrefix, CommonMiddlewares and Handle calls over a growing tree of muxes (nil middlewares, caller-owned slices reused afterwards, nested and repeated prefixes with and without slashes, OAuth endpoints) and 1-5 clients sending requests to the handlers, each telling some middleware to answer, fail or rewrite; the trace of every request is compared with an interpreter of the same program."})
	register(&Scenario{Prop: "C04", Near: true, Gen: genC04, Run: runC04,
		Rule: "A case is 2-6 clients sending requests to routes with PanicRecover at a random place of the chain or absent and with no, a JSON or a custom error middleware; some panic with one of 12 kinds of values in the handler (in a few cases hundreds of times in a row), inside a nested call, or in a middleware before or after it, some fail or answer; every response, log entry and panic leaving ServeHTTP is compared with the specification."})
}

type refMux struct {
	mux    *gofre.MuxHandler
	prefix string
	mws    []int
}

type refHandler struct {
	id     int
	method string
	path   string
	chain  []int
	oauth  int // 0 no, 1 initiate, 2 authorize
}

// joinPath is the documented concatenation of prefix and path.
func joinPath(prefix, p string) string {
	if prefix == "" {
		return p
	}
	if p == "" {
		return prefix
	}
	return strings.TrimSuffix(prefix, "/") + "/" + strings.TrimPrefix(p, "/")
}

var muxPrefixes = []string{"/api", "/v1", "/api", "/v1/", "/a/b", "adm", "/", "v2/"}
var muxMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "GET"}

func genC03(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("x", 1)}
	var ops []Op
	n := 4 + r.Intn(21)
	for i := 0; i < n; i++ {
		p := P("m", r.Intn(8), "p", r.Intn(len(muxPrefixes)), "n", r.Intn(4), "nil", r.Intn(16)*r.Intn(2), "meth", r.Intn(6), "style", r.Intn(6), "reuse", r.Intn(2))
		k := []string{"clone", "prefix", "mw", "mw", "mw", "handle", "handle", "handle", "prefix", "handle"}[r.Intn(10)]
		if r.Intn(20) == 0 {
			k = "oauth"
		}
		ops = append(ops, Op{K: k, P: p})
	}
	ops = append([]Op{{K: "handle", P: P("m", 0, "n", r.Intn(3))}}, ops...)
	ops[0].P["build"] = 1
	c.Actors = append(c.Actors, ops)
	for a := 0; a < 1+r.Intn(5); a++ {
		var rq []Op
		for i := 0; i < 2+r.Intn(8); i++ {
			rq = append(rq, Op{K: "req", P: P("h", r.Intn(24), "do", r.Intn(6), "at", r.Intn(8), "wrong", r.Intn(6)/5, "hold", r.Intn(3)*r.Intn(2), "seed", r.Intn(1000))})
		}
		c.Actors = append(c.Actors, rq)
	}
	return c
}

type muxCtxKey struct{}

type muxReq struct {
	op    Op
	tag   string
	trace []string
}

func (q *muxReq) add(f string, a ...any) { q.trace = append(q.trace, fmt.Sprintf(f, a...)) }

// do: 0,1 all pass; 2 the middleware number "at" of the chain answers; 3 it
// fails before; 4 it fails after; 5 it replaces the response.
func (q *muxReq) acts(pos int, kind int) bool { return q.op.I("do") == kind && q.op.I("at") == pos }

func runC03(e *Env, c *Case) {
	app := newApp(e, nil)
	reqs := map[string]*muxReq{}
	// every middleware knows only its own number; the position of an
	// invocation within the chain is counted in the request
	mk := func(id int) middleware.Middleware {
		return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
			q := reqs[mc.R.Header.Get("X-Sim")]
			seen, _ := ctx.Value(muxCtxKey{}).(string)
			hop := mc.R.Header.Get("X-Hop")
			pos := strings.Count(seen, ",")
			q.add(">%d ctx=%s hop=%s", id, seen, hop)
			pause(q.op.P["hold"])
			if q.acts(pos, 2) {
				q.add("=%d", id)
				return response.PlainTextHttpResponseOK(fmt.Sprintf("answered by %d", id)), nil
			}
			if q.acts(pos, 3) {
				e.Fault("middleware fails")
				return nil, fmt.Errorf("mw %d refuses", id)
			}
			nr := mc.R.Clone(mc.R.Context())
			nr.Header.Set("X-Hop", hop+fmt.Sprint(id)+".")
			nm := mc.Clone()
			nm.R = nr
			resp, err := next(context.WithValue(ctx, muxCtxKey{}, seen+fmt.Sprint(id)+","), nm)
			got := "nil"
			if err != nil {
				got = "error " + err.Error()
			} else if resp != nil {
				got = fmt.Sprint(resp.StatusCode(), " ", resp.Headers()["X-Trail"])
			}
			q.add("<%d %s", id, got)
			pause(q.op.P["hold"])
			if q.acts(pos, 4) {
				e.Fault("middleware fails")
				return nil, fmt.Errorf("mw %d fails late", id)
			}
			if q.acts(pos, 5) {
				return response.PlainTextHttpResponseWithHeaders(202, fmt.Sprintf("replaced by %d", id), response.HttpHeaders{"X-Trail": fmt.Sprint(id, ";")}), nil
			}
			if err == nil {
				resp.Headers().Set("X-Trail", resp.Headers()["X-Trail"]+fmt.Sprint(id, ";"))
			}
			return resp, err
		})
	}
	poison := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
		if q := reqs[mc.R.Header.Get("X-Sim")]; q != nil {
			q.add("a middleware which was never registered")
		}
		return next(ctx, mc)
	})
	clients, builds := [][]Op(nil), [][]Op(nil)
	for _, a := range c.Actors {
		if len(a) > 0 && a[0].K != "req" {
			builds = append(builds, a)
		} else {
			clients = append(clients, a)
		}
	}
	muxes := []*refMux{{mux: app.Mux}}
	var hs []*refHandler
	used := map[string]bool{}
	nextMw := 1
	oauthCfg := oauth.Config{WebsiteUrl: "https://site.example", Providers: []oauth.Provider{oauth.GitHubProvider{ClientId: "cid", ClientSecret: "s"}}}
	for _, b := range builds {
		for _, op := range b {
			m := muxes[op.I("m")%len(muxes)]
			// a slice owned by the caller, with spare capacity and reused later
			list := make([]middleware.Middleware, 0, 8)
			var ids []int
			for i := 0; i < op.I("n"); i++ {
				if op.I("nil")>>i&1 == 1 {
					list = append(list, nil)
					continue
				}
				list = append(list, mk(nextMw))
				ids = append(ids, nextMw)
				nextMw++
			}
			addHandler := func(method, p string, own []int, oa int) {
				hs = append(hs, &refHandler{id: len(hs), method: method, path: p, chain: append(append([]int(nil), m.mws...), own...), oauth: oa})
			}
			pan := func() (r any) {
				defer func() { r = recover() }()
				switch op.K {
				case "clone":
					muxes = append(muxes, &refMux{m.mux.Clone(), m.prefix, append([]int(nil), m.mws...)})
				case "prefix":
					p := muxPrefixes[op.I("p")%len(muxPrefixes)]
					if m.prefix == "" && p[0] != '/' {
						p = "/" + p
					}
					muxes = append(muxes, &refMux{m.mux.RouteUsingPathPrefix(p), joinPath(m.prefix, p), append([]int(nil), m.mws...)})
				case "mw":
					m.mux.CommonMiddlewares(list...)
					m.mws = append(m.mws, ids...)
				case "handle":
					id := len(hs)
					p := fmt.Sprintf("/h%d", id)
					switch op.I("style") {
					case 1:
						if m.prefix != "" {
							p = p[1:]
						}
					case 2:
						if m.prefix != "" {
							p = ""
						}
					case 3:
						p += "/{x}"
					}
					method := muxMethods[op.I("meth")%len(muxMethods)]
					full := joinPath(m.prefix, p)
					key := method + " " + strings.Trim(full, "/")
					if used[key] {
						return nil
					}
					used[key] = true
					h := func(ctx context.Context, mc MC) (Resp, error) {
						q := reqs[mc.R.Header.Get("X-Sim")]
						seen, _ := ctx.Value(muxCtxKey{}).(string)
						q.add("H%d ctx=%s hop=%s", id, seen, mc.R.Header.Get("X-Hop"))
						pause(q.op.P["hold"])
						if q.op.I("do") == 1 {
							return nil, fmt.Errorf("handler %d fails", id)
						}
						return response.PlainTextHttpResponseWithHeaders(200, fmt.Sprintf("handler %d", id), response.HttpHeaders{"X-Trail": fmt.Sprintf("h%d;", id)}), nil
					}
					addHandler(method, full, ids, 0)
					switch {
					case op.I("reuse") == 1 && op.I("style") == 4:
						m.mux.HandleRequest(strings.ToLower(method), p, h, list...)
					case op.I("style") == 5:
						m.mux.HandleRequest(method, p, h, list...)
					case method == "GET":
						m.mux.HandleGet(p, h, list...)
					case method == "POST":
						m.mux.HandlePost(p, h, list...)
					case method == "PUT":
						m.mux.HandlePut(p, h, list...)
					case method == "PATCH":
						m.mux.HandlePatch(p, h, list...)
					case method == "DELETE":
						m.mux.HandleDelete(p, h, list...)
					}
				case "oauth":
					id := len(hs)
					ini, au := fmt.Sprintf("/oi%d", id), fmt.Sprintf("/oa%d", id)
					var own2 []int
					var list2 []middleware.Middleware
					for i := 0; i < op.I("nil")%3; i++ {
						list2 = append(list2, mk(nextMw))
						own2 = append(own2, nextMw)
						nextMw++
					}
					addHandler("GET", joinPath(m.prefix, ini), ids, 1)
					addHandler("GET", joinPath(m.prefix, au)+"/github", own2, 2)
					m.mux.HandleOAUTH2WithCustomPaths(ini, au, oauthCfg, func(context.Context, MC) (Resp, error) {
						return response.PlainTextHttpResponseOK("?"), nil
					}, list, list2)
				}
				return nil
			}()
			if pan != nil {
				e.Fail("register", "registration step %+v panicked: %v", op, pan)
				return
			}
			if op.I("reuse") == 1 {
				for i := range list[:cap(list)] {
					list[:cap(list)][i] = poison
				}
			}
		}
	}
	if len(hs) == 0 {
		return
	}
	e.Probe(fmt.Sprintf("muxes: %d", len(muxes)))
	for ai, ops := range clients {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				q := &muxReq{op: op, tag: tag}
				reqs[tag] = q
				h := hs[op.I("h")%len(hs)]
				p := h.path
				if strings.HasSuffix(p, "{x}") {
					p = strings.TrimSuffix(p, "{x}") + "v" + tag
				}
				known := true
				if op.I("wrong") == 1 {
					segs := strings.Split(strings.Trim(p, "/"), "/")
					last := segs[len(segs)-1]
					p = []string{"/" + last, "/api/" + last, "/v1/" + last, "/api/api/" + last, "/api/v1/" + last, "/v1/v1/" + last, "/api", "/nothing"}[op.I("seed")%8]
					known = false
					for _, g := range hs {
						if g.method == h.method && strings.Trim(g.path, "/") == strings.Trim(p, "/") {
							h, known = g, true
						}
					}
					if !known && strings.Contains(fmt.Sprint(hs[0].path, p), "{x}") {
						continue
					}
					for _, g := range hs {
						gp := strings.TrimSuffix(g.path, "{x}")
						if !known && g.method == h.method && gp != g.path && strings.HasPrefix(strings.Trim(p, "/")+"/", strings.Trim(gp, "/")+"/") {
							// would have to be matched with the variable
							known, h = true, nil
							break
						}
					}
					if h == nil {
						continue
					}
				}
				spec := &ReqSpec{Method: h.method, Path: p, Header: hdr("X-Sim", tag)}
				if h.oauth == 2 {
					spec.Query = "error=denied"
				}
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, spec)
				logged := app.errsBy(me)[before:]
				e.Check()
				e.Log("%s %s %s: status %d body %q trace %q", tag, h.method, p, x.Status, x.Body, q.trace)
				at := fmt.Sprintf("request %s %s %s (middlewares %v, behaviour %d at position %d)", tag, h.method, p, h.chain, op.I("do"), op.I("at"))
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", at, x.PanicText)
					return
				}
				if !known {
					if x.Status != 404 || len(q.trace) > 0 {
						e.Fail("prefix", "%s: no handler is registered there, status %d, trace %q", at, x.Status, q.trace)
						return
					}
					continue
				}
				want := &muxReq{op: op, tag: tag}
				status, trail, body, err := refServe(want, h, 0, "", "")
				if strings.Join(q.trace, "|") != strings.Join(want.trace, "|") {
					e.Fail("order", "%s:\n  ran      %q\n  expected %q", at, q.trace, want.trace)
					return
				}
				wantLogs := 0
				if err != "" {
					status, body, wantLogs = 500, "", 1
				}
				if x.Status != status || h.oauth != 1 && string(x.Body) != body || err == "" && h.oauth != 1 && x.Header.Get("X-Trail") != trail {
					e.Fail("result", "%s: got %d %q trail %q, expected %d %q trail %q", at, x.Status, x.Body, x.Header.Get("X-Trail"), status, body, trail)
					return
				}
				if len(logged) != wantLogs || wantLogs == 1 && !strings.Contains(logged[0], err) {
					e.Fail("result", "%s: expected error %q, logged %q", at, err, logged)
					return
				}
			}
		})
	}
	e.MustFinish(100*hour, "stuck")
}

// refServe is the interpreter of a chain.
func refServe(q *muxReq, h *refHandler, pos int, seen, hop string) (status int, trail, body, err string) {
	if pos == len(h.chain) {
		switch h.oauth {
		case 1:
			return 302, "", "", ""
		case 2:
			return 0, "", "", "unauthorized request"
		}
		q.add("H%d ctx=%s hop=%s", h.id, seen, hop)
		if q.op.I("do") == 1 {
			return 0, "", "", fmt.Sprintf("handler %d fails", h.id)
		}
		return 200, fmt.Sprintf("h%d;", h.id), fmt.Sprintf("handler %d", h.id), ""
	}
	id := h.chain[pos]
	q.add(">%d ctx=%s hop=%s", id, seen, hop)
	if q.acts(pos, 2) {
		q.add("=%d", id)
		return 200, "", fmt.Sprintf("answered by %d", id), ""
	}
	if q.acts(pos, 3) {
		return 0, "", "", fmt.Sprintf("mw %d refuses", id)
	}
	status, trail, body, err = refServe(q, h, pos+1, seen+fmt.Sprint(id)+",", hop+fmt.Sprint(id)+".")
	if err != "" {
		q.add("<%d error %s", id, err)
	} else {
		q.add("<%d %d %s", id, status, trail)
	}
	if q.acts(pos, 4) {
		return 0, "", "", fmt.Sprintf("mw %d fails late", id)
	}
	if q.acts(pos, 5) {
		return 202, fmt.Sprint(id, ";"), fmt.Sprintf("replaced by %d", id), ""
	}
	if err == "" {
		trail += fmt.Sprint(id, ";")
	}
	return
}

// --- C04

type panicValue struct{ Tag string }

const nPanicKinds = 12

// doPanic panics with a value of kind k.
func doPanic(k int, tag string) {
	secret := "secret of " + tag
	switch k % nPanicKinds {
	case 0:
		panic(secret)
	case 1:
		panic(errors.New(secret))
	case 2:
		panic(42)
	case 3:
		panic(panicValue{tag})
	case 4:
		panic(&panicValue{tag})
	case 5:
		var m map[string]int
		m[tag] = 1
	case 6:
		var a []int
		_ = a[len(tag)]
	case 7:
		var p *panicValue
		_ = p.Tag
	case 8:
		panic(http.ErrAbortHandler)
	case 9:
		panic(fmt.Errorf("wrapped: %w", context.Canceled))
	case 10:
		defer func() { panic(secret + " again") }()
		panic("first " + secret)
	case 11:
		var i any = tag
		_ = i.(int)
	}
}

func genC04(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("common", r.Intn(2))}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(6); i++ {
			p := P("route", r.Intn(7), "kind", r.Intn(nPanicKinds), "pre", r.Intn(3), "hold", r.Intn(3)*r.Intn(2), "var", r.Intn(2), "m", r.Intn(2))
			// where: 0 nothing, 1 handler at once, 2 handler having built a
			// response, 3 inner middleware before, 4 inner middleware after,
			// 5 handler returns an error, 6 outer middleware
			if r.Intn(5) < 3 {
				p["where"] = int64(1 + r.Intn(6))
			}
			if r.Intn(6) == 0 {
				p["gone"] = 1
			}
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	if k := r.Intn(80); k == 0 || th && k < 4 {
		// a storm: whatever a panic costs runs out
		op := Op{K: "req", P: P("route", r.Intn(7), "kind", r.Intn(nPanicKinds), "m", r.Intn(2), "where", 1+r.Intn(5), "rep", []int{20, 70, 140, 270}[r.Intn(4)])}
		if th && r.Intn(3) == 0 {
			op.P["rep"] = 1100
		}
		c.Actors[0] = append([]Op{op}, c.Actors[0]...)
	}
	return c
}

func runC04(e *Env, c *Case) {
	app := newApp(e, nil)
	type rq struct {
		op       Op
		tag      string
		runs     int
		cancel   context.CancelFunc
		val      any    // the value the panic carried when it was raised
		outerErr []bool // what middlewares outside of PanicRecover saw
		outerRes []bool
	}
	reqs := map[string]*rq{}
	raise := func(q *rq) {
		e.Fault("panic")
		defer func() {
			q.val = recover()
			panic(q.val)
		}()
		doPanic(q.op.I("kind"), q.tag)
	}
	inner := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		if q.op.I("where") == 3 {
			raise(q)
		}
		resp, err := next(ctx, mc)
		pause(q.op.P["hold"])
		if q.op.I("where") == 4 && err == nil {
			raise(q)
		}
		return resp, err
	})
	outer := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		resp, err := next(ctx, mc)
		q.outerErr = append(q.outerErr, err != nil)
		q.outerRes = append(q.outerRes, resp != nil)
		pause(q.op.P["hold"])
		if q.op.I("where") == 6 {
			raise(q)
		}
		return resp, err
	})
	custom := middleware.ErrResponse(func(code int, err error) response.HttpResponse {
		return response.PlainTextHttpResponseWithHeaders(code, "custom answer", response.HttpHeaders{"X-Err": "1"})
	})
	h := func(ctx context.Context, mc MC) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		q.runs++
		if q.op.I("gone") == 1 {
			e.Fault("client gone before the answer")
			q.cancel()
		}
		pause(q.op.P["pre"])
		if q.op.I("where") == 1 {
			raise(q)
		}
		hs := response.NewHttpHeaders()
		hs.Set("X-Tag", q.tag)
		hs.Set("X-Secret-"+q.tag, "secret of "+q.tag)
		cs := response.NewHttpCookie(&http.Cookie{Name: "c" + q.tag, Value: "secret"})
		resp := response.PlainTextResponseWithHeadersAndCookies(200, "ok "+mc.PathVar("id"), hs, cs)
		pause(q.op.P["hold"])
		switch q.op.I("where") {
		case 2:
			raise(q)
		case 5:
			return nil, errors.New("failure of " + q.tag)
		}
		return resp, nil
	}
	pr := middleware.PanicRecover()
	routes := []struct {
		recovers bool
		errMw    int // 0 none, 1 JSON, 2 custom
		mws      []middleware.Middleware
	}{
		{true, 0, []middleware.Middleware{outer, pr, inner}},
		{true, 1, []middleware.Middleware{outer, middleware.ErrJsonResponse(), pr, inner}},
		{true, 2, []middleware.Middleware{outer, custom, pr, inner}},
		{true, 2, []middleware.Middleware{outer, custom, pr, inner, middleware.PanicRecover()}},
		{false, 0, []middleware.Middleware{outer, inner}},
		{false, 1, []middleware.Middleware{outer, middleware.ErrJsonResponse(), inner}},
		{true, 0, []middleware.Middleware{outer, pr, middleware.CompressResponse(5), inner}},
	}
	methods := []string{"GET", "POST"}
	for i, rt := range routes {
		mux := app.Mux
		mws := rt.mws
		if c.I("common") == 1 {
			mux = app.Mux.Clone()
			mux.CommonMiddlewares(mws[:len(mws)-1]...)
			mws = mws[len(mws)-1:]
		}
		for _, m := range methods {
			mux.HandleRequest(m, fmt.Sprintf("/r%d/{id}", i), h, mws...)
		}
	}
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			var all []Op
			for _, op := range ops {
				for k := 0; k <= op.I("rep"); k++ {
					all = append(all, op)
				}
			}
			for i, op := range all {
				tag := tagOf(ai, i)
				q := &rq{op: op, tag: tag}
				reqs[tag] = q
				ri := op.I("route") % len(routes)
				rt := routes[ri]
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, &ReqSpec{Method: methods[op.I("m")%2], Path: fmt.Sprintf("/r%d/%s", ri, tag), Header: hdr("X-Sim", tag), Variant: op.I("var") % 2, OnCancel: func(c context.CancelFunc) { q.cancel = c }})
				logged := app.errsBy(me)[before:]
				gone := op.I("gone") == 1 && q.runs > 0
				e.Check()
				e.Log("%s route %d where %d kind %d: status %d body %.60q panic %v logged %d", tag, ri, op.I("where"), op.I("kind"), x.Status, x.Body, x.Panic != nil, len(logged))
				where := op.I("where")
				panics := where >= 1 && where <= 4 || where == 6
				at := fmt.Sprintf("request %s (route %d, %s, panic kind %d)", tag, ri, []string{"succeeds", "the handler panics", "the handler panics late", "an inner middleware panics", "an inner middleware panics after the handler", "the handler fails", "a middleware outside of PanicRecover panics"}[where%7], op.I("kind"))
				if panics && (!rt.recovers || where == 6) {
					e.Probe("panic leaves ServeHTTP")
					if x.Panic == nil {
						e.Fail("propagate", "%s: nothing recovers, but ServeHTTP did not panic (status %d)", at, x.Status)
						return
					}
					if fmt.Sprintf("%T %v", x.Panic, x.Panic) != fmt.Sprintf("%T %v", q.val, q.val) {
						e.Fail("propagate", "%s: ServeHTTP panicked with %T %v instead of %T %v", at, x.Panic, x.Panic, q.val, q.val)
						return
					}
					if len(x.Body) > 0 || len(logged) > 0 && !gone {
						e.Fail("propagate", "%s: the client got %q, logged %q", at, trunc(string(x.Body)), logged)
						return
					}
					continue
				}
				if x.Panic != nil {
					e.Fail("contain", "%s: the panic left ServeHTTP: %v", at, x.PanicText)
					return
				}
				failed := panics || where == 5
				status, body, logs := 200, "ok "+tag, 0
				if failed {
					status = 500
					switch rt.errMw {
					case 0:
						body, logs = "", 1
					case 2:
						body = "custom answer"
					}
				}
				if len(q.outerErr) != 1 || q.outerErr[0] != (failed && rt.errMw == 0) || q.outerRes[0] == q.outerErr[0] {
					e.Fail("contain", "%s: the middleware outside saw error %v response %v", at, q.outerErr, q.outerRes)
					return
				}
				if gone {
					// nobody sees the answer, but the error has to be logged
					if logs == 1 && len(logged) != 1 || len(logged) > 1 {
						e.Fail("error-log", "%s, whose client is gone: %d errors logged instead of %d: %q", at, len(logged), logs, logged)
						return
					}
					continue
				}
				if x.Status != status || !x.Complete {
					e.Fail("contain", "%s: status %d (complete %v) instead of %d", at, x.Status, x.Complete, status)
					return
				}
				if failed && rt.errMw == 1 {
					var m map[string]string
					if err := json.Unmarshal(x.Body, &m); err != nil || m["error"] == "" || len(m) != 1 {
						e.Fail("contain", "%s: the JSON error is %q", at, trunc(string(x.Body)))
						return
					}
				} else if string(x.Body) != body {
					e.Fail("contain", "%s: body %q instead of %q", at, trunc(string(x.Body)), body)
					return
				}
				if len(logged) != logs {
					e.Fail("error-log", "%s: %d errors logged instead of %d: %q", at, len(logged), logs, logged)
					return
				}
				want := ""
				if !failed {
					want = tag
				}
				extra := 0
				for k := range x.Header {
					if strings.HasPrefix(k, "X-Secret-") || k == "Set-Cookie" {
						extra++
					}
				}
				if x.Header.Get("X-Tag") != want || !failed && (extra != 2 || len(x.Header["Set-Cookie"]) != 1 || !strings.HasPrefix(x.Header.Get("Set-Cookie"), "c"+tag+"=")) || failed && extra != 0 {
					e.Fail("contain", "%s: the headers are %v", at, x.Header)
					return
				}
				if !failed {
					e.Probe("unaffected request")
				}
			}
		})
	}
	e.MustFinish(100*hour, "stuck")
	_ = simrt.Yield
}
