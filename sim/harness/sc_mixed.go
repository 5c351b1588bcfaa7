package harness

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	htmpl "html/template"
	"io"
	"net"
	"net/http"
	"net/url"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simhttp"
	"verifsim/simrt"
)

// C15 race freedom and C21 independence of stalled requests: one application
// using every middleware, response kind, cache and provider.

func init() {
	register(&Scenario{Prop: "C15", Race: true, Gen: genC15, Run: func(e *Env, c *Case) { runMixed(e, c, false) }, Pol: func(r *Rng, p *simrt.Policy) { p.StarveTo = min(p.StarveTo, 200) },
		Rule: "A case is an application with a random stack of the framework's middlewares and 3-8 clients sending 1-3 requests each to routes of every kind (all response kinds, event streams, hijacking, errors, panics, CSRF, OAuth, authorization, caches); it runs in the race-instrumented build, whose detector does not see the simulator's hand-overs."})
	register(&Scenario{Prop: "C21", Gen: genC21, Run: func(e *Env, c *Case) { runMixed(e, c, true) }, Pol: func(r *Rng, p *simrt.Policy) { p.AdvP = 0 },
		Rule: "A case is an application with a random stack of the framework's middlewares and 3-12 clients sending requests of every kind, about half of which stall for up to 10 hours at one of 11 points (handler, body source, client, generator, hijack callback, loggers, caches, providers, suppliers, middleware, request body) and, in some cases, hundreds of which stall at the same point; time only passes when nobody can run, so the simulated duration of a request beyond its own pauses is waiting for another."})
}

const (
	mkText = iota
	mkJSON
	mkTemplate
	mkStream
	mkRaw
	mkSSE
	mkHijack
	mkError
	mkPanic
	mkCSRF
	mkInitiate
	mkAuthorize
	mkGuarded
	mkAdaptor
	mkNotFound
	mkRedirect
	mkForm
	mkAsset
	mkPreflight
	nMixed
)

var mixedNames = []string{"text", "json", "template", "stream", "raw", "sse", "hijack", "error", "panic", "csrf", "oauth initiate", "oauth authorize", "guarded", "adaptor", "not found", "redirect", "form", "static resource", "preflight"}

const (
	spNone = iota
	spHandler
	spClient
	spBody // source, writer function, template, generator, hijack callback
	spDumper
	spErrLog
	spCache
	spProvider
	spSupplier
	spMiddleware
	spRequestBody
	nStall
)

var stallNames = []string{"none", "handler", "client", "body", "dumper", "error log", "cache", "provider", "supplier", "middleware", "request body"}

func genC15(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("stack", r.Intn(128), "level", r.Intn(3)-1, "shared", r.Intn(2), "two", r.Intn(4)/3)}
	kinds := make([]int, 1+r.Intn(4))
	for i := range kinds {
		kinds[i] = r.Intn(nMixed)
	}
	for a := 0; a < 3+r.Intn(6); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(3); i++ {
			k := kinds[r.Intn(len(kinds))]
			if r.Intn(4) == 0 {
				k = r.Intn(nMixed)
			}
			ops = append(ops, Op{K: "req", P: P("kind", k, "x", r.Intn(1<<20), "ae", r.Intn(4), "tls", r.Intn(2), "origin", r.Intn(2), "ms", 0)})
			if r.Intn(3) == 0 {
				o := &ops[len(ops)-1]
				o.P["fault"], o.P["at"] = int64(1+r.Intn(4)), int64(r.Intn(40)-1)
			}
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

// where a kind can stall
var stallsOf = map[int][]int{
	mkStream: {spBody}, mkRaw: {spBody}, mkTemplate: {spBody}, mkSSE: {spBody, spBody}, mkHijack: {spBody, spBody}, mkError: {spErrLog, spErrLog}, mkPanic: {spErrLog, spErrLog},
	mkCSRF: {spCache, spCache, spRequestBody}, mkInitiate: {spCache, spCache}, mkAuthorize: {spProvider, spProvider, spProvider, spCache}, mkGuarded: {spSupplier, spSupplier, spSupplier}, mkAdaptor: {spBody}, mkForm: {spRequestBody, spRequestBody}, mkAsset: {spBody, spBody, spBody},
}

func genC21(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("stack", r.Intn(128), "level", r.Intn(3)-1, "shared", r.Intn(2), "two", r.Intn(4)/3)}
	n, focus := 3+r.Intn(6), 0
	if r.Intn(6) == 0 {
		n = 8 + r.Intn(12)
	}
	if th && r.Intn(20) == 0 {
		n = 60 + r.Intn(60)
	}
	kinds := make([]int, 1+r.Intn(4))
	for i := range kinds {
		kinds[i] = r.Intn(nMixed)
	}
	if r.Intn(6) == 0 {
		// many requests of one kind: whatever they share runs out
		n, kinds = []int{8, 12, 20, 40, 72}[r.Intn(5)]+r.Intn(8), kinds[:1]
		if th && r.Intn(4) == 0 {
			n = 136 + r.Intn(140)
		}
		focus = 1 + r.Intn(1<<20)
	}
	for a := 0; a < n; a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(3); i++ {
			k := kinds[r.Intn(len(kinds))]
			if r.Intn(4) == 0 {
				k = r.Intn(nMixed)
			}
			o := Op{K: "req", P: P("kind", k, "x", r.Intn(1<<20), "ae", r.Intn(4), "tls", r.Intn(2), "origin", r.Intn(2), "wait", []int{0, 0, 1, 500, 4000, 3600000}[r.Intn(6)])}
			if r.Intn(2) == 0 || focus > 0 && r.Intn(2) == 0 {
				l := append([]int{spHandler, spClient, spDumper, spMiddleware}, stallsOf[k]...)
				o.P["stall"] = int64(l[r.Intn(len(l))])
				if focus > 0 {
					// and at the same point
					o.P["stall"], o.P["wait"] = int64(l[focus%len(l)]), int64(r.Intn(2))
				}
				o.P["ms"] = []int64{1, 900, 3000, 3600000, 36000000}[r.Intn(5)]
			}
			ops = append(ops, o)
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

type mixedReq struct {
	e    *Env
	op   Op
	tag  string
	kind int
	own  time.Duration
	rw   *RW
	runs int
	lean bool

	echo   bool // handlers answer with what they see of the request
	unique bool // everything about the request is its own: principal, permissions
	bodies []*trackedBody
}

type mixedKey struct{}

func mixedOf(ctx context.Context) *mixedReq {
	q, _ := ctx.Value(mixedKey{}).(*mixedReq)
	return q
}

// at is called at every point where the request may stall.
func (q *mixedReq) at(point int) {
	if q == nil {
		simrt.Yield()
		return
	}
	if q.op.I("stall") == point && q.op.P["ms"] > 0 {
		q.e.Fault("request stalls: " + stallNames[point])
		d := time.Duration(q.op.P["ms"]) * time.Millisecond
		simrt.Sleep(d)
		q.own += d
		return
	}
	simrt.Yield()
}

// slowCache puts the stall point of the calling request around cache calls.
type slowCache struct {
	cache.Cache
	by func() *mixedReq
}

func (c *slowCache) Add(k string, d time.Duration) error {
	c.by().at(spCache)
	return c.Cache.Add(k, d)
}
func (c *slowCache) Remove(k string)        { c.by().at(spCache); c.Cache.Remove(k) }
func (c *slowCache) Contains(k string) bool { c.by().at(spCache); return c.Cache.Contains(k) }

// mixedIdp is a stateless identity provider: the code names the request.
type mixedIdp struct{ conns *connLimit }

func (m mixedIdp) RoundTrip(req *http.Request) (*http.Response, error) {
	if m.conns == nil {
		return m.answer(req)
	}
	release, err := m.conns.get(req)
	if err != nil {
		return nil, err
	}
	resp, err := m.answer(req)
	if err != nil {
		release()
		return nil, err
	}
	resp.Body = &connBody{resp.Body, release}
	return resp, nil
}

// connLimit is a transport's limit on the connections to a host.
type connLimit struct {
	mu    sync.Mutex
	max   int
	inUse map[string]int
}

// idpBehind is the providers behind a transport of the framework.
func idpBehind(rt http.RoundTripper) mixedIdp {
	if t, ok := rt.(*http.Transport); ok && t != nil && t.MaxConnsPerHost > 0 {
		return mixedIdp{conns: &connLimit{max: t.MaxConnsPerHost, inUse: map[string]int{}}}
	}
	return mixedIdp{}
}

func (l *connLimit) get(req *http.Request) (func(), error) {
	host := req.URL.Host
	for {
		l.mu.Lock()
		free := l.inUse[host] < l.max
		if free {
			l.inUse[host]++
		}
		l.mu.Unlock()
		if free {
			break
		}
		pause(10)
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
	}
	done := false
	return func() {
		l.mu.Lock()
		defer l.mu.Unlock()
		if !done {
			done = true
			l.inUse[host]--
		}
	}, nil
}

// connBody gives the connection back when it was read or closed.
type connBody struct {
	io.ReadCloser
	release func()
}

func (b *connBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err != nil {
		b.release()
	}
	return n, err
}

func (b *connBody) Close() error {
	b.release()
	return b.ReadCloser.Close()
}

func (mixedIdp) answer(req *http.Request) (*http.Response, error) {
	q := mixedOf(req.Context())
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	if q != nil && q.op.I("stall") == spProvider {
		q.e.Fault("request stalls: " + stallNames[spProvider])
		t0 := q.e.W.Now()
		tm := time.NewTimer(time.Duration(q.op.P["ms"]) * time.Millisecond)
		defer tm.Stop()
		k := simrt.Select(false, simrt.SelRecv(req.Context().Done()), simrt.SelRecv(tm.C))
		simrt.Yield()
		q.own += q.e.W.Now() - t0
		if k == 0 {
			return nil, req.Context().Err()
		}
	} else {
		simrt.Yield()
	}
	out := ""
	switch "https://" + req.URL.Host + req.URL.Path {
	case oauth.GitHubAccessTokenEndpoint:
		v, _ := url.ParseQuery(string(body))
		out = `{"access_token":"tok-` + v.Get("code") + `","token_type":"bearer","scope":"a,b"}`
	case oauth.GoogleAccessTokenEndpoint:
		var v map[string]string
		json.Unmarshal(body, &v)
		out = `{"access_token":"tok-` + v["code"] + `","token_type":"bearer","scope":"a b","refresh_token":"r","expires_in":3599}`
	default:
		t := strings.TrimPrefix(req.Header.Get("Authorization"), "Bearer tok-")
		out = `{"email":"` + t + `@example.com","login":"` + t + `","id":"` + t + `","name":"n"}`
	}
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
		Body: io.NopCloser(strings.NewReader(out)), ContentLength: int64(len(out)), Request: req}
	if q != nil && q.unique {
		if err := q.disturb(req, resp, out); err != nil {
			return nil, err
		}
	}
	return resp, nil
}

// stallReader is a source of data which may stall in the middle.
type stallReader struct {
	q    *mixedReq
	at   int
	data []byte
	pos  int
}

func (s *stallReader) Read(p []byte) (int, error) {
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if s.pos > 0 && s.pos <= 10 {
		s.q.at(s.at)
	}
	n := copy(p, s.data[s.pos:min(len(s.data), s.pos+10)])
	s.pos += n
	return n, nil
}

// mixedParts is what an application with everything the framework offers is
// made from.
type mixedParts struct {
	e              *Env
	bits, level    int
	by             func() *mixedReq
	nonces, states cache.Cache
	root           string
	fold           bool
	log            func(error)
}

func (m *mixedParts) application() *gofre.MuxHandler {
	e := m.e
	mux, err := gofre.NewMuxHandler(&gofre.Config{
		CaseInsensitivePathMatch: m.fold,
		ErrLogFunc: func(err error) {
			m.by().at(spErrLog)
			if m.log != nil {
				m.log(err)
			}
		},
		ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: filepath.Join(m.root, "app0"), Template: htmpl.New("")},
	})
	if err != nil {
		e.Bug("NewMuxHandler: %v", err)
		return nil
	}
	own := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
		q := mixedOf(mc.R.Context())
		resp, err := next(ctx, mc)
		q.at(spMiddleware)
		return resp, err
	})
	all := []middleware.Middleware{
		middleware.ErrJsonResponse(),
		middleware.RequestDumper(func(string) { m.by().at(spDumper) }),
		middleware.CompressResponse(m.level),
		middleware.SecurityHeaders(middleware.SecurityHeadersConfig{
			STS:          middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 100, Preload: true},
			ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionAllowFrom, XFrameOptionHeaderValue: "ALLOW-FROM", XFrameAllowFromUri: "https://a.example"}, BlockContentSniffingEnabled: true, XSSProtectionEnabled: true}),
		middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"GET", "POST"}, SupportsCredentials: true, ExposedHeaders: []string{"X-A"}}),
		own,
		middleware.PanicRecover(),
	}
	for i, mw := range all {
		if m.bits>>i&1 == 1 {
			mux.CommonMiddlewares(mw)
		}
	}
	find := func(mc *MC) *mixedReq {
		q := mixedOf(mc.R.Context())
		if q == nil {
			e.Bug("request without its context")
		} else {
			q.runs++
		}
		return q
	}
	tmpl := htmpl.Must(htmpl.New("").Funcs(htmpl.FuncMap{"stall": func(q *mixedReq) string { q.at(spBody); return q.tag }}).Parse(`{{define "page"}}<p>{{stall .}}</p>{{end}}`))
	perms := []auth.Permission{{Scope: "shop/orders/eu", Access: auth.AccessRead}, {Scope: "shop/orders", Access: auth.AccessRead}}
	user := &auth.User{Id: "u", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r", AllowedPermissions: []auth.Permission{{Scope: "shop/*", Access: 7}}, DeniedPermissions: []auth.Permission{{Scope: "admin", Access: 1}}}}}}}
	sup := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc MC) (auth.SecurityPrincipal, error) {
		q := mixedOf(mc.R.Context())
		q.at(spSupplier)
		if q.unique {
			if q.op.I("x")%5 == 0 {
				return nil, nil // nobody
			}
			return &auth.User{Id: "u", Attachment: q.tag, Groups: []auth.Group{{Name: "g " + q.tag, Roles: []auth.Role{{Name: "r " + q.tag, AllowedPermissions: []auth.Permission{{Scope: "shop/*", Access: 7}, {Scope: "of/" + q.tag, Access: 7}}}}}}}, nil
		}
		return user, nil
	})
	dyn := func(ctx context.Context, mc MC) ([]auth.Permission, error) {
		q := mixedOf(mc.R.Context())
		q.at(spSupplier)
		if q.unique {
			sc := "of/" + q.tag
			if q.op.I("x")%5 == 1 {
				sc = "not/" + q.tag
			}
			return []auth.Permission{perms[0], {Scope: sc, Access: auth.AccessRead}}, nil
		}
		return perms, nil
	}
	for k := 0; k < nMixed; k++ {
		var h handler.Handler
		var mws []middleware.Middleware
		switch k {
		case mkCSRF:
			mws = append(mws, middleware.CSRFPrevention(m.nonces))
		case mkGuarded:
			mws = append(mws, sup, middleware.AuthorizeAll(perms...), middleware.Authorize(dyn, true))
		case mkInitiate, mkAuthorize, mkNotFound, mkAsset:
			continue
		}
		h = func(ctx context.Context, mc MC) (Resp, error) {
			q := find(&mc)
			q.at(spHandler)
			text := "ok " + q.tag
			if q.echo {
				text += " " + seenBy(ctx, mc)
			}
			switch k {
			case mkJSON:
				return response.JsonHttpResponse(200, map[string]string{"tag": q.tag, "text": text}), nil
			case mkTemplate:
				return response.TemplateHttpResponseOK(tmpl, "page", q), nil
			case mkStream:
				return response.StreamHttpResponse("text/plain", &stallReader{q: q, at: spBody, data: []byte(strings.Repeat(text+" ", 20))}), nil
			case mkRaw:
				return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
					io.WriteString(w, text)
					q.at(spBody)
					_, err := io.WriteString(w, " end")
					return err
				}), nil
			case mkSSE:
				return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
					ch := make(chan response.ServerSentEvent)
					data := []string{text}
					if q.echo {
						data[0] += " since " + last
					}
					if q.op.I("x")%2 == 0 {
						data = append(data, strings.Repeat("more of it ", 500)) // more than a connection buffers
					}
					simrt.Go("generator "+q.tag, func() {
						defer close(ch)
						for i := 0; i < 3; i++ {
							q.at(spBody)
							if simrt.Select(false, simrt.SelRecv(ctx.Done()), simrt.SelSend(ch).With(response.ServerSentEvent{Id: fmt.Sprint(i), Data: data})) == 0 {
								return
							}
							simrt.Yield()
						}
					})
					return ch
				}), nil
			case mkHijack:
				return response.NewHttpHijackConnectionResponse(func(conn net.Conn, rw *bufio.ReadWriter, err error) {
					if conn == nil {
						return
					}
					q.at(spBody)
					io.WriteString(rw, text)
					rw.Flush()
				}), nil
			case mkError:
				return nil, errors.New("failure " + q.tag)
			case mkPanic:
				panic("panic " + q.tag)
			case mkCSRF:
				return response.PlainTextHttpResponseOK(middleware.GetCSRFNonceFromContext(ctx)), nil
			case mkGuarded:
				if p := auth.GetSecurityPrincipalFromContext(ctx); p == nil || p.Identity() != "u" {
					return nil, errors.New("no principal")
				}
			case mkAdaptor:
				return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {
					io.WriteString(w, text)
					q.at(spBody)
				}), nil
			case mkPreflight:
				if cfg := mux.Config(); cfg.ContextPath != "/" || mux.ExecutableTemplate() == nil {
					return nil, errors.New("the configuration changed")
				}
			case mkRedirect:
				return response.RedirectHttpResponse("/to/" + q.tag), nil
			case mkForm:
				text += " " + mc.R.FormValue("f")
			}
			hs := response.NewHttpHeaders()
			hs.Set("X-Tag", mc.PathVar("id"))
			ck := response.NewEmptyHttpCookie()
			ck.Add(&http.Cookie{Name: "c" + q.tag, Value: q.tag})
			return response.PlainTextResponseWithHeadersAndCookies(200, text, hs, ck), nil
		}
		// tags are like t3q1 or t3q1p
		pattern := fmt.Sprintf("/m%d/{id}", k)
		switch k % 3 {
		case 1:
			pattern = fmt.Sprintf("/m%d/{id:^[a-z]+[0-9]+q[0-9]+[a-z]*$}", k)
		case 2:
			// the most specific one is chosen
			mux.HandleGet(fmt.Sprintf("/m%d/*q0", k), h, mws...)
			mux.HandleGet(fmt.Sprintf("/m%d/**", k), h, mws...)
		}
		mux.HandleGet(pattern, h, mws...)
		mux.HandlePost(pattern, h, mws...)
		if k == mkPreflight {
			mux.HandleRequest("OPTIONS", pattern, h, mws...)
		}
	}
	spare := make([]string, 1, 8)
	spare[0] = "one"
	ocfg := oauth.Config{WebsiteUrl: "https://www.example.com", FetchUserDetails: true, Providers: []oauth.Provider{
		oauth.GitHubProvider{ClientId: "gh-id", ClientSecret: "s", Scopes: spare}, oauth.GoogleProvider{ClientId: "gg-id", ClientSecret: "s", Scopes: spare}}}
	ocfg.CacheConfig.Cache = m.states
	ocfg.CacheConfig.KeyExpirationTime = 1000 * time.Hour
	mux.HandleOAUTH2(ocfg, func(ctx context.Context, mc MC) (Resp, error) {
		q := find(&mc)
		q.at(spHandler)
		return response.PlainTextHttpResponseOK("ok " + oauth.GetAccessTokenFromContext(ctx).AccessToken), nil
	}, nil, nil)
	return mux
}

func runMixed(e *Env, c *Case, timing bool) {
	t1, t2 := oauth.HttpClient.Transport, http.DefaultTransport
	oauth.HttpClient.Transport, http.DefaultTransport = idpBehind(t1), idpBehind(t2)
	defer func() { oauth.HttpClient.Transport, http.DefaultTransport = t1, t2 }()
	oldExp := middleware.CSRFExpirationTime
	middleware.CSRFExpirationTime = 100000 * time.Hour
	defer func() { middleware.CSRFExpirationTime = oldExp }()
	cur := map[string]*mixedReq{} // by task; only used for timing
	by := func() *mixedReq {
		if !timing {
			return nil
		}
		return cur[simrt.SelfName()]
	}
	root, err := makeTree()
	if err != nil {
		e.Bug("scratch directory: %v", err)
		return
	}
	simhttp.Hook = func(op *simhttp.Op) error {
		if op.Kind == "read" || op.Kind == "open" {
			by().at(spBody)
		}
		return nil
	}
	defer func() { simhttp.Hook = nil }()
	var nonces, states cache.Cache = cache.NewInMemory(), cache.NewInMemory()
	if c.I("shared") == 1 {
		states = nonces
	}
	if timing {
		nonces, states = &slowCache{nonces, by}, &slowCache{states, by}
	}
	bits := c.I("stack")
	parts := &mixedParts{e: e, bits: bits, level: int(c.C("level")), by: by, nonces: nonces, states: states, root: root}
	muxes := []*gofre.MuxHandler{parts.application()}
	if c.I("two") == 1 {
		muxes = append(muxes, parts.application())
	}
	if e.Failed() {
		return
	}
	for i := 0; i < 4; i++ {
		// states of flows initiated before
		states.Add(fmt.Sprint("state", i), 10000*time.Hour)
	}
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		mux := muxes[ai%len(muxes)]
		if timing {
			cur[me] = nil
		}
		var mine *mixedReq
		serve := func(q *mixedReq, spec *ReqSpec) *Exchange {
			mine = q
			if timing {
				cur[me] = q
			}
			spec.Ctx = context.WithValue(context.Background(), mixedKey{}, q)
			spec.OnWriter = func(rw *RW) { q.rw = rw }
			x := e.Serve(mux, spec)
			e.Check()
			if !x.Finished {
				return x
			}
			if timing {
				if over := x.Took - q.own - q.rw.Stalled; over > 0 {
					e.Fail("delayed", "request %s (%s, stalling at: %s) took %v, %v longer than its own pauses, while other requests were stalled", q.tag, mixedNames[q.kind], stallNames[q.op.I("stall")], x.Took, over)
				}
				e.Log("%s %s: status %d took %v own %v", q.tag, mixedNames[q.kind], x.Status, x.Took, q.own)
			}
			return x
		}
		_ = mine
		e.Actor(me, func() {
			for i, op := range ops {
				if w := op.P["wait"]; w > 0 {
					pause(w)
				}
				k := op.I("kind") % nMixed
				q := &mixedReq{e: e, op: op, tag: tagOf(ai, i), kind: k}
				spec := &ReqSpec{Method: "GET", Path: fmt.Sprintf("/m%d/%s", k, q.tag), Header: hdr("X-Sim", q.tag), TLS: op.I("tls") == 1}
				if op.I("ae") > 0 {
					spec.Header.Set("Accept-Encoding", acceptEncodings[op.I("ae")%4])
				}
				if op.I("origin") == 1 {
					spec.Header.Set("Origin", "https://a.example")
				}
				if op.I("stall") == spClient {
					spec.Stall = time.Duration(op.P["ms"]) * time.Millisecond
				}
				setForm := func(b string) {
					spec.Method = "POST"
					spec.Header.Set("Content-Type", "application/x-www-form-urlencoded")
					spec.Body, spec.BodyLen = &stallReader{q: q, at: spRequestBody, data: []byte(b)}, int64(len(b))
				}
				if op.I("x")%3 == 0 {
					spec.Variant = varH2
				}
				if f := op.I("fault"); f > 0 {
					spec.Fault, spec.FaultAt, spec.Grace = f%4, op.P["at"], op.I("x")%3
				}
				want := 200
				switch k {
				case mkSSE:
					spec.Variant, spec.Proto = varH2, 2
				case mkHijack:
					spec.Variant = varH1
					want = 0
				case mkError, mkPanic:
					want = 500
					if k == mkPanic && bits>>6&1 == 0 {
						want = 0
					}
				case mkNotFound:
					want = 404
				case mkRedirect:
					want = 302
				case mkAsset:
					spec.Path = []string{"/assets/a.txt", "/assets/", "/assets/missing", "/assets/big.bin"}[op.I("x")%4]
					want = -1
				case mkPreflight:
					if op.I("x")%2 == 0 {
						spec.Method = "OPTIONS"
						spec.Header.Set("Access-Control-Request-Method", "POST")
					}
				case mkForm:
					setForm("f=" + strings.Repeat(q.tag, 10))
				case mkInitiate:
					want = 302
					spec.Path, spec.Query = "/oauth/initiate", "provider="+[]string{"github", "google"}[op.I("x")%2]
				case mkAuthorize:
					spec.Path = "/oauth/authorize/" + []string{"github", "google"}[op.I("x")%2]
					spec.Query = "state=state" + fmt.Sprint(op.I("x")%4) + "&code=" + q.tag
					if op.I("stall") == spProvider && op.P["ms"] > 2000 {
						want = -1
					}
				case mkCSRF:
					x := serve(q, spec)
					if !x.Finished || e.Failed() {
						return
					}
					b, _ := decodeBody(x)
					if len(b) == 0 {
						if timing {
							e.Fail("refused", "request %s got no nonce, status %d", q.tag, x.Status)
						}
						continue
					}
					q = &mixedReq{e: e, op: op, tag: q.tag + "p", kind: k}
					spec = &ReqSpec{Method: "POST", Path: spec.Path, Header: spec.Header.Clone(), TLS: spec.TLS, Stall: spec.Stall}
					setForm("pad=1234567890&_csrf=" + string(b))
				}
				x := serve(q, spec)
				if !x.Finished || e.Failed() {
					return
				}
				if timing && want >= 0 && x.Status != want && !(k == mkPanic && x.Panic != nil) {
					e.Fail("refused", "request %s (%s) was answered with status %d instead of %d", q.tag, mixedNames[k], x.Status, want)
					return
				}
			}
		})
	}
	if e.MustFinish(10000*hour, "stuck") {
		e.Drain(10000 * hour)
	}
}
