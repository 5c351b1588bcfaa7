package harness

import (
	"context"
	"errors"
	"fmt"
	"html/template"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
)

// C23 the request context reaches everything that works for the request.

func init() {
	register(&Scenario{Prop: "C23", Near: true, Gen: genC23, Run: runC23, Pol: func(r *Rng, p *simrt.Policy) { p.AdvP = 0 },
		Rule: "A case is 1-5 clients, each sending 1-3 requests to 2-4 routes behind random stacks of the framework's middlewares mixed with application middlewares that add values, deadlines and cancellations, replace the request or take their time; handlers, principal and permission suppliers, adapted net/http handlers, custom responses, streams, JSON and template values, event generators, OAuth callbacks and the requests to OAuth providers look at their context again and again; clients leave and the server's deadlines pass at random instants. At every look the context carries its request's values and has ended exactly if its request's end has come."})
}

const (
	ckWait = iota
	ckStream
	ckAdapted
	ckAdaptedResp
	ckCustom
	ckSSE
	ckOAuthStub
	ckOAuthReal
	ckJSON
	ckTemplate
	nCtxKinds
)

const (
	cmValue = iota
	cmDeadline
	cmCancel
	cmWait
	cmReplace
	cmCompress
	cmHeaders
	cmCors
	cmDumper
	cmErrJson
	cmRecover
	cmSupplier
	cmAuthz
	cmCSRF
	cmAfter
	nCtxMws
)

var cmNames = []string{"value", "deadline", "cancel", "wait", "replace", "compress", "headers", "cors", "dumper", "errjson", "recover", "supplier", "authz", "csrf", "after"}

type ctxKey struct{ name string }

// ctxScope is what a context has to look like at some place.
type ctxScope struct {
	vals [][2]string
	ends []*ctxEnd
	csrf bool
	user bool
	tok  bool
	kind bool // the context may end with another error than the request's
}

type ctxEnd struct {
	at   time.Duration // -1: not yet
	err  error
	own  bool // cancelled by a middleware
	told bool
}

func (s ctxScope) with(k, v string) ctxScope {
	s.vals = append(append([][2]string(nil), s.vals...), [2]string{k, v})
	return s
}

func (s ctxScope) until(d *ctxEnd) ctxScope {
	s.ends = append(append([]*ctxEnd(nil), s.ends...), d)
	return s
}

// ctxReq is a request under observation.
type ctxReq struct {
	e       *Env
	tag     string
	code    string // for the OAuth provider, possibly presented by several requests
	op      Op
	base    ctxScope // the server's context
	cur     ctxScope // and what the middlewares have made of it so far
	req     ctxScope // the context of the request the handler sees
	seen    []ctxSeen
	looks   int
	running int
	over    bool
	steps   int
	stepMs  time.Duration
}

type ctxSeen struct {
	where string
	ctx   context.Context
}

const ctxLag = 100 * time.Millisecond

// look compares a context with its scope.
func (q *ctxReq) look(where string, ctx context.Context, s ctxScope, vals bool) bool {
	e := q.e
	if e.Failed() {
		return false
	}
	e.Check()
	q.looks++
	if ctx == nil {
		e.Fail("no-context", "request %s, %s: no context", q.tag, where)
		return false
	}
	if vals {
		for _, kv := range s.vals {
			if got, _ := ctx.Value(ctxKey{kv[0]}).(string); got != kv[1] {
				e.Fail("value", "request %s, %s: the context's value of %s is %q instead of %q", q.tag, where, kv[0], got, kv[1])
				return false
			}
		}
		if s.csrf && middleware.GetCSRFNonceFromContext(ctx) == "" {
			e.Fail("value", "request %s, %s: no CSRF nonce in the context", q.tag, where)
			return false
		}
		if s.tok {
			if t := oauth.GetAccessTokenFromContext(ctx); !strings.HasSuffix(t.AccessToken, q.code) {
				e.Fail("value", "request %s, %s: the access token in the context is %q", q.tag, where, t.AccessToken)
				return false
			}
		}
		if s.user {
			p := auth.GetSecurityPrincipalFromContext(ctx)
			if p == nil || p.Identity() != "user-"+q.tag {
				e.Fail("value", "request %s, %s: the principal in the context is %v", q.tag, where, p)
				return false
			}
		}
	}
	now := e.W.Now()
	var first *ctxEnd
	for _, d := range s.ends {
		if d.at >= 0 && d.at <= now && (first == nil || d.at < first.at) {
			first = d
		}
	}
	err := ctx.Err()
	switch {
	case err != nil && first == nil:
		e.Fail("early-end", "request %s, %s: the context has ended (%v, cause %v) while the client waits and no deadline has passed", q.tag, where, err, context.Cause(ctx))
		return false
	case err == nil && first != nil && now-first.at > ctxLag:
		e.Fail("late-end", "request %s, %s: the context goes on %v after the request ended (%v)", q.tag, where, now-first.at, first.err)
		return false
	case err != nil && !s.kind && !errors.Is(err, first.err):
		e.Fail("end-kind", "request %s, %s: the context ended with %q instead of %q", q.tag, where, err, first.err)
		return false
	}
	if err != nil {
		e.Probe("looked at an ended context: " + where)
		if !first.told {
			first.told = true
			if first.err == context.DeadlineExceeded {
				e.Fault("deadline passes")
			} else if first.own {
				e.Fault("middleware cancels")
			}
		}
	} else {
		e.Probe("looked at a live context: " + where)
	}
	q.seen = append(q.seen, ctxSeen{where, ctx})
	return true
}

// work spends time looking at the context, and reacts to its end if asked to.
func (q *ctxReq) work(where string, ctx context.Context, s ctxScope, vals bool) bool {
	q.running++
	defer func() { q.running-- }()
	for i := 0; i <= q.steps; i++ {
		if !q.look(where, ctx, s, vals) {
			return false
		}
		if i == q.steps {
			break
		}
		t := time.NewTimer(q.stepMs)
		k := simrt.Select(false, simrt.SelRecv(ctx.Done()), simrt.SelRecv(t.C))
		t.Stop()
		simrt.Yield()
		if k == 0 {
			if !q.look(where, ctx, s, vals) {
				return false
			}
			if ctx.Err() == nil {
				q.e.Fail("early-end", "request %s, %s: Done is closed and the context has not ended", q.tag, where)
				return false
			}
			if q.op.I("react") == 1 {
				return true
			}
			simrt.Sleep(q.stepMs)
		}
	}
	return true
}

// ctxReader is a stream bound to the handler's context.
type ctxReader struct {
	q    *ctxReq
	ctx  context.Context
	s    ctxScope
	left int
}

func (c *ctxReader) Read(p []byte) (int, error) {
	c.q.running++
	defer func() { c.q.running-- }()
	simrt.Yield()
	if !c.q.look("the stream of the response", c.ctx, c.s, true) {
		return 0, io.EOF
	}
	if c.left == 0 {
		return 0, io.EOF
	}
	c.left--
	simrt.Sleep(c.q.stepMs)
	if !c.q.look("the stream of the response", c.ctx, c.s, true) {
		return 0, io.EOF
	}
	return copy(p, "chunk of "+c.q.tag+"\n"), nil
}

type ctxResp struct {
	response.HttpHeadersResponse
	q   *ctxReq
	ctx context.Context
	s   ctxScope
}

func (r *ctxResp) Write(w http.ResponseWriter, mc MC) error {
	r.q.running++
	defer func() { r.q.running-- }()
	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
		return err
	}
	if !r.q.work("a response while it is written", r.ctx, r.s, true) {
		return nil
	}
	r.q.lookReq("a response while it is written", mc.R)
	io.WriteString(w, "custom "+r.q.tag)
	return nil
}

// lookReq checks the context of the request a response is written for: it is
// the server's, or one that the middlewares derived from it.
func (q *ctxReq) lookReq(where string, r *http.Request) bool {
	if got := r.Header.Get("X-Sim"); got != q.tag {
		q.e.Fail("request", "request %s, %s: the request is %s's", q.tag, where, got)
		return false
	}
	s := q.base
	if r.Context().Err() != nil {
		s.ends, s.kind = q.cur.ends, true
	}
	return q.look(where+" (request)", r.Context(), s, true)
}

type ctxJSON struct {
	q   *ctxReq
	ctx context.Context
	s   ctxScope
}

func (j ctxJSON) MarshalJSON() ([]byte, error) {
	j.q.work("a JSON value while it is marshalled", j.ctx, j.s, true)
	return []byte(`"` + j.q.tag + `"`), nil
}

type ctxTmpl struct{ ctxJSON }

func (t ctxTmpl) Value() string {
	t.q.work("a template while it is executed", t.ctx, t.s, true)
	return t.q.tag
}

// ctxProvider is an OAuth provider of the application.
type ctxProvider struct {
	e    *Env
	reqs map[string]*ctxReq
}

// ctxOwner finds the request a context belongs to by the server's value in it.
func (e *Env) ctxOwner(reqs map[string]*ctxReq, where string, ctx context.Context) *ctxReq {
	v, _ := ctx.Value(ctxKey{"server"}).(string)
	q := reqs[strings.TrimPrefix(v, "srv-")]
	if q == nil {
		e.Fail("value", "%s: the context is no request's", where)
	}
	return q
}

func (p *ctxProvider) Name() string { return "stub" }
func (p *ctxProvider) InitiateUrl(redirect, state string, user bool) string {
	return "https://idp.example/?state=" + state
}
func (p *ctxProvider) FetchAccessToken(ctx context.Context, redirect, code string) (oauth.AccessToken, error) {
	q := p.e.ctxOwner(p.reqs, "a provider fetching the access token", ctx)
	if q == nil {
		return oauth.AccessToken{}, errors.New("whose request?")
	}
	if code != q.code {
		p.e.Fail("value", "request %s: the code %q is exchanged under the context of another request", q.tag, code)
	}
	q.work("a provider fetching the access token", ctx, q.cur, true)
	if q.op.I("react") == 1 && ctx.Err() != nil {
		return oauth.AccessToken{}, ctx.Err()
	}
	return oauth.AccessToken{AccessToken: "tok-" + q.code}, nil
}
func (p *ctxProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	q := p.e.ctxOwner(p.reqs, "a provider fetching the user", ctx)
	if q == nil {
		return auth.User{}, errors.New("whose request?")
	}
	q.work("a provider fetching the user", ctx, q.cur, true)
	if q.op.I("react") == 1 && ctx.Err() != nil {
		return auth.User{}, ctx.Err()
	}
	return auth.User{Id: "user-" + q.tag}, nil
}

// ctxTransport is the network between gofre's providers and GitHub or Google.
type ctxTransport struct {
	e    *Env
	reqs map[string]*ctxReq
}

func (t *ctxTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	simrt.Yield()
	if req.Body != nil {
		io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	q := t.e.ctxOwner(t.reqs, "a request to the provider "+req.URL.Host, req.Context())
	if q == nil {
		return nil, errors.New("whose request?")
	}
	q.work("a request to the provider "+req.URL.Host, req.Context(), ctxScope{vals: q.cur.vals, ends: q.cur.ends, kind: true}, true)
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	out := `{"access_token":"` + q.code + `","token_type":"bearer","scope":"user"}`
	if strings.Contains(req.URL.Path, "user") {
		out = `{"id":1,"name":"n","email":"e@example.com"}`
	}
	return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hdr("Content-Type", "application/json"), Body: io.NopCloser(strings.NewReader(out)), ContentLength: int64(len(out)), Request: req}, nil
}

func genC23(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("routes", 2+r.Intn(3), "prefix", r.Intn(2), "user", r.Intn(2), "real", r.Intn(2))}
	nr := int(c.Cfg["routes"])
	for i := 0; i < nr; i++ {
		c.Cfg[fmt.Sprintf("kind%d", i)] = int64(r.Intn(nCtxKinds))
		n := r.Intn(7)
		c.Cfg[fmt.Sprintf("n%d", i)] = int64(n)
		for k := 0; k < n; k++ {
			c.Cfg[fmt.Sprintf("m%d_%d", i, k)] = int64(r.Intn(nCtxMws))
		}
	}
	nc := r.Intn(4)
	c.Cfg["nc"] = int64(nc)
	for k := 0; k < nc; k++ {
		c.Cfg[fmt.Sprintf("mc_%d", k)] = int64(r.Intn(nCtxMws))
	}
	actors := 1 + r.Intn(5)
	for a := 0; a < actors; a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(3); i++ {
			o := Op{K: "req", P: P("route", r.Intn(nr), "steps", r.Intn(4), "ms", []int{0, 1, 10, 1000, 60000, 600000}[r.Intn(6)], "react", r.Intn(2), "ae", r.Intn(2), "origin", r.Intn(3)/2, "var", r.Intn(3), "md", []int{1, 500, 3000, 30000, 3600000}[r.Intn(5)], "pre", []int{0, 0, 1, 1000}[r.Intn(4)], "code", r.Intn(3))}
			span := max(o.P["steps"]*o.P["ms"], 1)
			if r.Intn(2) == 0 {
				o.P["gone"] = 1 + int64(r.Intn(int(2*span)))
			}
			if r.Intn(3) == 0 {
				o.P["deadline"] = 1 + int64(r.Intn(int(2*span)))
			}
			ops = append(ops, o)
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func runC23(e *Env, c *Case) {
	app := newApp(e, nil)
	reqs := map[string]*ctxReq{}
	of := func(mc MC) *ctxReq { return reqs[mc.R.Header.Get("X-Sim")] }
	pos := 0
	mw := func(code int) middleware.Middleware {
		pos++
		name := fmt.Sprintf("m%d", pos)
		where := "middleware " + cmNames[code]
		check := func(ctx context.Context, mc MC) (*ctxReq, bool) {
			q := of(mc)
			if q == nil {
				e.Fail("request", "%s was given the request %q", where, mc.R.URL.Path)
				return nil, false
			}
			return q, q.look(where, ctx, q.cur, true) && q.look(where+" (request)", mc.R.Context(), q.req, true)
		}
		switch code {
		case cmValue:
			return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
				q, ok := check(ctx, mc)
				if !ok {
					return response.InternalServerErrorHttpResponse(), nil
				}
				q.cur = q.cur.with(name, q.tag)
				return next(context.WithValue(ctx, ctxKey{name}, q.tag), mc)
			})
		case cmDeadline:
			return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
				q, ok := check(ctx, mc)
				if !ok {
					return response.InternalServerErrorHttpResponse(), nil
				}
				d := time.Duration(q.op.P["md"])*time.Millisecond + 250*time.Microsecond
				ctx, cancel := context.WithTimeout(ctx, d)
				_ = cancel
				q.cur = q.cur.until(&ctxEnd{at: e.W.Now() + d, err: context.DeadlineExceeded})
				return next(ctx, mc)
			})
		case cmCancel:
			return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
				q, ok := check(ctx, mc)
				if !ok {
					return response.InternalServerErrorHttpResponse(), nil
				}
				ctx, cancel := context.WithCancel(ctx)
				d := &ctxEnd{at: -1, err: context.Canceled, own: true}
				q.cur = q.cur.until(d)
				wait := time.Duration(q.op.P["md"])*time.Millisecond + 125*time.Microsecond
				simrt.Go("canceller "+q.tag, func() {
					simrt.Sleep(wait)
					simrt.Atomically(func() {
						d.at = e.W.Now()
						cancel()
					})
				})
				return next(ctx, mc)
			})
		case cmReplace:
			return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
				q, ok := check(ctx, mc)
				if !ok {
					return response.InternalServerErrorHttpResponse(), nil
				}
				q.cur = q.cur.with(name, q.tag)
				ctx = context.WithValue(ctx, ctxKey{name}, q.tag)
				mc.R = mc.R.WithContext(ctx)
				q.req = q.cur
				return next(ctx, mc)
			})
		case cmWait:
			return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
				q, ok := check(ctx, mc)
				if !ok {
					return response.InternalServerErrorHttpResponse(), nil
				}
				pause(q.op.P["pre"])
				if !q.look(where, ctx, q.cur, true) {
					return response.InternalServerErrorHttpResponse(), nil
				}
				return next(ctx, mc)
			})
		case cmAfter:
			return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
				q, ok := check(ctx, mc)
				if !ok {
					return response.InternalServerErrorHttpResponse(), nil
				}
				mine, req := q.cur, q.req
				resp, err := next(ctx, mc)
				q.look(where+" afterwards", ctx, mine, true)
				pause(q.op.P["pre"])
				q.look(where+" afterwards", ctx, mine, true)
				q.look(where+" afterwards (request)", mc.R.Context(), req, true)
				return resp, err
			})
		case cmCompress:
			return middleware.CompressResponse(1)
		case cmHeaders:
			return middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true, BlockContentSniffingEnabled: true})
		case cmCors:
			return middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET", "HEAD"}})
		case cmDumper:
			return middleware.RequestDumper(func(string) { simrt.Yield() })
		case cmErrJson:
			return middleware.ErrJsonResponse()
		case cmRecover:
			return middleware.PanicRecover()
		case cmSupplier, cmAuthz:
			sup := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc MC) (auth.SecurityPrincipal, error) {
				q := of(mc)
				if q == nil {
					return nil, errors.New("whose request?")
				}
				q.work("a principal supplier", ctx, q.cur, true)
				q.cur.user = true
				return &auth.User{Id: "user-" + q.tag, Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r", AllowedPermissions: []auth.Permission{auth.AllPermissions()}}}}}}, nil
			})
			if code == cmSupplier {
				return sup
			}
			perm, _ := auth.NewPermission("a/b/c", auth.AccessRead)
			az := middleware.Authorize(func(ctx context.Context, mc MC) ([]auth.Permission, error) {
				q := of(mc)
				if q == nil {
					return nil, errors.New("whose request?")
				}
				q.work("a permission supplier", ctx, q.cur, true)
				return []auth.Permission{perm}, nil
			}, pos%2 == 0)
			return func(h handler.Handler) handler.Handler { return sup(az(h)) }
		}
		n := cache.NewInMemory()
		csrf := middleware.CSRFPrevention(n)
		mark := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
			if q := of(mc); q != nil {
				q.cur.csrf = true
			}
			return next(ctx, mc)
		})
		return func(h handler.Handler) handler.Handler { return csrf(mark(h)) }
	}
	stack := func(pfx string, n int64) (l []middleware.Middleware) {
		for k := int64(0); k < n; k++ {
			l = append(l, mw(int(c.Cfg[fmt.Sprintf("%s%d", pfx, k)]%nCtxMws)))
		}
		return
	}
	mux := app.Mux
	if c.I("prefix") == 1 {
		mux = mux.RouteUsingPathPrefix("/pre")
	}
	mux.CommonMiddlewares(stack("mc_", c.Cfg["nc"])...)
	tr := &ctxTransport{e, reqs}
	t1, t2 := oauth.HttpClient.Transport, http.DefaultTransport
	oauth.HttpClient.Transport, http.DefaultTransport = tr, tr
	defer func() { oauth.HttpClient.Transport, http.DefaultTransport = t1, t2 }()
	tmpl := template.Must(template.New("t").Parse("<p>{{.Value}}</p>"))

	// the handler of a route
	hnd := func(kind int) handler.Handler {
		return func(ctx context.Context, mc MC) (Resp, error) {
			q := of(mc)
			if q == nil {
				e.Fail("request", "a handler was given the request %q", mc.R.URL.Path)
				return response.InternalServerErrorHttpResponse(), nil
			}
			q.running++
			defer func() { q.running-- }()
			s := q.cur
			if !q.look("the handler", ctx, s, true) || !q.look("the handler (request)", mc.R.Context(), q.req, true) {
				return response.InternalServerErrorHttpResponse(), nil
			}
			switch kind {
			case ckStream:
				return response.StreamHttpResponse("text/plain", &ctxReader{q, ctx, s, q.steps}), nil
			case ckAdaptedResp:
				return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {
					q.workReq("an adapted handler function", r)
					io.WriteString(w, "adapted "+q.tag)
				}), nil
			case ckCustom:
				return &ctxResp{response.HttpHeadersResponse{HttpStatusCode: 200, ContentType: "text/plain"}, q, ctx, s}, nil
			case ckSSE:
				return response.SSEHttpResponse(func(gctx context.Context, last string) <-chan response.ServerSentEvent {
					ch := make(chan response.ServerSentEvent)
					simrt.Go("generator "+q.tag, func() {
						defer close(ch)
						gs := q.base
						for i := 0; i < q.steps; i++ {
							simrt.Yield()
							if !q.lookGen(gctx, gs) {
								return
							}
							t := time.NewTimer(q.stepMs)
							simrt.Select(false, simrt.SelRecv(gctx.Done()), simrt.SelRecv(t.C))
							t.Stop()
							simrt.Yield()
							if !q.lookGen(gctx, gs) || gctx.Err() != nil {
								return
							}
							if simrt.Select(false, simrt.SelRecv(gctx.Done()), simrt.SelSend(ch).With(response.ServerSentEvent{Data: []string{q.tag}})) == 0 {
								simrt.Yield()
								q.lookGen(gctx, gs)
								return
							}
							simrt.Yield()
						}
						q.lookGen(gctx, gs)
					})
					return ch
				}), nil
			case ckJSON:
				return response.JsonHttpResponseOK(ctxJSON{q, ctx, s}), nil
			case ckTemplate:
				return response.TemplateHttpResponseOK(tmpl, "t", ctxTmpl{ctxJSON{q, ctx, s}}), nil
			}
			q.work("the handler", ctx, s, true)
			return response.PlainTextHttpResponseOK("text " + q.tag), nil
		}
	}
	paths := make([]string, c.I("routes"))
	pre := ""
	if c.I("prefix") == 1 {
		pre = "/pre"
	}
	for i := range paths {
		kind := c.I(fmt.Sprintf("kind%d", i)) % nCtxKinds
		mws := stack(fmt.Sprintf("m%d_", i), c.Cfg[fmt.Sprintf("n%d", i)])
		p := fmt.Sprintf("/r%d/{id}", i)
		paths[i] = pre + fmt.Sprintf("/r%d/", i)
		switch kind {
		case ckAdapted:
			a := handler.Handler2Handler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				q := reqs[r.Header.Get("X-Sim")]
				if q == nil {
					e.Fail("request", "an adapted handler was given the request %q", r.URL.Path)
					return
				}
				q.workReq("an adapted handler", r)
				io.WriteString(w, "adapted "+q.tag)
			}))
			mux.HandleGet(p, a, mws...)
		case ckOAuthStub, ckOAuthReal:
			cfg := oauth.Config{WebsiteUrl: "https://www.example.com", FetchUserDetails: c.I("user") == 1, Providers: []oauth.Provider{&ctxProvider{e, reqs}}}
			paths[i] = pre + fmt.Sprintf("/cb%d/stub", i)
			if kind == ckOAuthReal {
				if c.I("real") == 0 {
					cfg.Providers = []oauth.Provider{oauth.GitHubProvider{ClientId: "id", ClientSecret: "s"}}
				} else {
					cfg.Providers = []oauth.Provider{oauth.GoogleProvider{ClientId: "id", ClientSecret: "s"}}
				}
				paths[i] = pre + fmt.Sprintf("/cb%d/%s", i, cfg.Providers[0].Name())
			}
			h := hnd(ckWait)
			mux.HandleOAUTH2WithCustomPaths(fmt.Sprintf("/in%d", i), fmt.Sprintf("/cb%d", i), cfg, func(ctx context.Context, mc MC) (Resp, error) {
				if q := of(mc); q != nil {
					if kind == ckOAuthStub {
						q.cur.tok = true
						if cfg.FetchUserDetails {
							q.cur.user = true
						}
					} else if cfg.FetchUserDetails {
						q.cur.user = false
					}
				}
				return h(ctx, mc)
			}, nil, mws)
		default:
			mux.HandleGet(p, hnd(kind), mws...)
		}
	}

	for ai, ops := range c.Actors {
		e.Actor(fmt.Sprintf("client%d", ai), func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				ri := op.I("route") % len(paths)
				kind := c.I(fmt.Sprintf("kind%d", ri)) % nCtxKinds
				q := &ctxReq{e: e, tag: tag, op: op, steps: op.I("steps"), stepMs: time.Duration(op.P["ms"]) * time.Millisecond}
				if kind == ckOAuthReal && time.Duration(q.steps)*q.stepMs > 4*time.Second {
					q.steps, q.stepMs = 1, 3*time.Second
				}
				q.code = tag
				if k := op.I("code"); k > 0 {
					// somebody pressed reload
					q.code = fmt.Sprintf("code%d", k)
				}
				reqs[tag] = q
				client := &ctxEnd{at: -1, err: context.Canceled}
				q.base = ctxScope{}.with("server", "srv-"+tag).until(client)
				base := context.WithValue(context.Background(), ctxKey{"server"}, "srv-"+tag)
				var stop context.CancelFunc
				if d := op.P["deadline"]; d > 0 {
					at := time.Duration(d)*time.Millisecond + 375*time.Microsecond
					base, stop = context.WithTimeout(base, at)
					q.base = q.base.until(&ctxEnd{at: e.W.Now() + at, err: context.DeadlineExceeded})
				}
				q.cur, q.req = q.base, q.base
				spec := &ReqSpec{Method: "GET", Path: paths[ri], Header: hdr("X-Sim", tag), Ctx: base, Variant: []int{varPlain, varH1, varH2}[op.I("var")%3]}
				switch kind {
				case ckSSE:
					spec.Variant, spec.Proto, spec.Path = varH2, 2, paths[ri]+tag
				case ckOAuthStub:
					spec.Query = "code=" + url.QueryEscape(q.code) + "&state=x"
				case ckOAuthReal:
					spec.Query = "code=" + url.QueryEscape(q.code) + "&state=x"
				default:
					spec.Path = paths[ri] + tag
				}
				if op.I("ae") == 1 {
					spec.Header.Set("Accept-Encoding", "gzip")
				}
				if op.I("origin") == 1 {
					spec.Header.Set("Origin", "https://a.example")
				}
				over := false
				spec.OnCancel = func(cancel context.CancelFunc) {
					g := op.P["gone"]
					if g == 0 {
						return
					}
					simrt.Go("network "+tag, func() {
						simrt.Sleep(time.Duration(g)*time.Millisecond + 500*time.Microsecond)
						if over {
							return
						}
						e.Fault("client disconnect")
						e.Log("client of %s disconnects", tag)
						simrt.Atomically(func() {
							client.at = e.W.Now()
							cancel()
						})
					})
				}
				x := e.Serve(app.Mux, spec)
				ended := false
				for _, d := range q.cur.ends {
					ended = ended || d.at >= 0 && d.at <= e.W.Now()
				}
				over = true
				if client.at < 0 {
					client.at = e.W.Now()
				}
				if stop != nil {
					stop()
				}
				e.Check()
				e.Log("%s (kind %d): status %d after %v, %d looks", tag, kind, x.Status, x.Took, q.looks)
				if e.Failed() {
					return
				}
				if x.Panic != nil {
					e.Fail("panic", "request %s: ServeHTTP panicked: %v", tag, x.PanicText)
					return
				}
				if q.running > 0 {
					e.Fail("abandoned", "request %s: ServeHTTP returned while its handler was at work", tag)
					return
				}
				if q.looks == 0 && op.P["gone"] == 0 && op.P["deadline"] == 0 {
					e.Fail("unserved", "request %s: status %d and nothing was asked to serve it", tag, x.Status)
					return
				}
				if !ended && (x.Status != 200 || !x.Complete) {
					e.Fail("outcome", "request %s (kind %d): status %d (complete %v) although the client waited and no deadline passed", tag, kind, x.Status, x.Complete)
					return
				}
				// the server has ended the request's context
				for _, s := range q.seen {
					if s.ctx.Err() == nil {
						e.Fail("late-end", "request %s, %s: the context goes on after the request was served", tag, s.where)
						return
					}
				}
			}
		})
	}
	if !e.MustFinish(10000*time.Hour, "stuck") {
		return
	}
	e.Drain(1000 * time.Hour)
}

// lookGen checks the context of an event generator.
func (q *ctxReq) lookGen(ctx context.Context, s ctxScope) bool {
	s.kind = true
	return q.look("an event generator", ctx, s, true)
}

// workReq is work under the context of the request a net/http handler gets.
func (q *ctxReq) workReq(where string, r *http.Request) {
	q.running++
	defer func() { q.running-- }()
	for i := 0; i <= q.steps; i++ {
		if !q.lookReq(where, r) || i == q.steps {
			return
		}
		t := time.NewTimer(q.stepMs)
		k := simrt.Select(false, simrt.SelRecv(r.Context().Done()), simrt.SelRecv(t.C))
		t.Stop()
		simrt.Yield()
		if k == 0 {
			q.lookReq(where, r)
			if q.op.I("react") == 1 {
				return
			}
			simrt.Sleep(q.stepMs)
		}
	}
}
