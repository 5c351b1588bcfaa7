package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	gferrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simhttp"
	"verifsim/simrt"
)

// C25: a request is answered as if it were the only one.

var aloneAddress = regexp.MustCompile(`0x[0-9a-f]+`)

func init() {
	register(&Scenario{Prop: "C25", Gen: genC25, Run: runC25, Pol: func(r *Rng, p *simrt.Policy) { p.AdvP = 0 },
		Rule: "A case is an application with a random stack of the framework's middlewares, mounted routes and routes of every kind, whose handlers answer with all they see of the request. 1-5 probe requests are first served each by a newly built application that serves nothing else. Then another one is built from the same configuration, which first serves 0-600 other requests and then, at the same time, 1-6 clients with others and the probes, several times. Others are near-copies of the probes (the same URL with other headers, host, principal, origin, encoding, body or method; or the same but for case, a slash or a segment) or of any kind, and may fail, panic, stall, be abandoned or break off. Each time, what the probe is answered and what is logged for it must be what it was alone."})
}

const (
	akExtra = nMixed + iota // what only this application has
	akMounted
	akDerived
	nAlone
)

const (
	nmHeader = iota
	nmEncoding
	nmOrigin
	nmScheme
	nmHost
	nmMethod
	nmCase
	nmSlash
	nmSegment
	nmQuery
	nmPrincipal
	nmAddress // any request from the same address
	nmWho     // another request, the same in everything
	nNear
)

var extraPaths = []string{"/e/%s/x", "/e/%s/y%s", "/e/%s", "/g/%s/b/%s", "/w/%s/end", "/w/%s/%s/end", "/q/%s.txt", "/none/%s"}

func genProbe(r *Rng, k int) Op {
	o := Op{K: "probe", P: P("kind", k, "x", r.Intn(1<<20), "ae", r.Intn(4), "tls", r.Intn(2), "origin", r.Intn(3), "odd", r.Intn(2), "form", r.Intn(3))}
	if r.Intn(4) == 0 {
		o.P["idp"] = int64(r.Intn(nIdpFaults))
	}
	if r.Intn(2) == 0 {
		l := []int{spHandler, spMiddleware}
		if k < nMixed {
			l = append(l, stallsOf[k]...)
		}
		o.P["stall"], o.P["ms"] = int64(l[r.Intn(len(l))]), []int64{1, 900, 3000}[r.Intn(3)]
	}
	return o
}

func genC25(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("stack", r.Intn(128), "level", r.Intn(3)-1, "fold", r.Intn(2), "store", []int{0, 0, 5}[r.Intn(3)], "again", 1+r.Intn(3))}
	switch r.Intn(8) {
	case 0:
	case 1:
		c.Cfg["before"] = int64(100 + r.Intn(500))
		if th && r.Intn(4) == 0 {
			c.Cfg["before"] *= 10
		}
	default:
		c.Cfg["before"] = int64(1 + r.Intn(30))
	}
	kinds := make([]int, 1+r.Intn(4))
	for i := range kinds {
		kinds[i] = r.Intn(nAlone + 3)
		if kinds[i] >= nAlone {
			kinds[i] = akExtra
		}
	}
	var probes []Op
	for i := 0; i < 1+r.Intn(5); i++ {
		probes = append(probes, genProbe(r, kinds[r.Intn(len(kinds))]))
	}
	c.Actors = append(c.Actors, probes)
	same := r.Intn(3) == 0
	clients, crowd := 1+r.Intn(6), Op{}
	if r.Intn(6) == 0 {
		// many of the same at the same time
		clients = 4 + r.Intn(10)
		i := r.Intn(len(probes))
		crowd = genProbe(r, probes[i].I("kind"))
		crowd.K, crowd.P["of"], crowd.P["mut"] = "req", int64(1+i), int64(r.Intn(nNear))
		if r.Intn(3) == 0 {
			crowd.P["mut"] = nmWho
		}
	}
	// or a provider fails all the flows, and is there again
	var outage Op
	each := 1 + r.Intn(5)
	if r.Intn(8) == 0 {
		clients, each = 1+r.Intn(5), 1+r.Intn(6)
		x := int64(r.Intn(1 << 20))
		outage, probes[0] = genProbe(r, mkAuthorize), genProbe(r, mkAuthorize)
		outage.K = "req"
		for _, o := range []Op{outage, probes[0]} {
			o.P["x"], o.P["odd"], o.P["idp"] = x, 0, 0
		}
		outage.P["idp"] = int64(1 + r.Intn(nIdpFaults-1))
	}
	for a := 0; a < clients; a++ {
		var ops []Op
		for i := 0; i < each; i++ {
			o := genProbe(r, kinds[r.Intn(len(kinds))])
			if r.Intn(4) == 0 {
				o = genProbe(r, r.Intn(nAlone))
			}
			if r.Intn(2) == 0 {
				o = genProbe(r, 0)
				o.P["of"], o.P["mut"] = int64(1+r.Intn(len(probes))), int64(r.Intn(nNear))
			}
			o.K = "req"
			if r.Intn(3) == 0 {
				o.P["fault"], o.P["at"], o.P["grace"] = int64(1+r.Intn(3)), int64(r.Intn(60)-1), int64(r.Intn(3))
			}
			if r.Intn(4) == 0 {
				o.P["gone"] = []int64{1, 3, 500, 3000}[r.Intn(4)]
			}
			if crowd.P != nil {
				o = crowd
			}
			if outage.P != nil {
				o = outage
			}
			if same && i > 0 {
				o = ops[0]
			}
			ops = append(ops, o)
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

// seenBy tells everything a handler can see of its request.
func seenBy(ctx context.Context, mc MC) string {
	r := mc.R
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %s of %s at %s from %s;", r.Method, r.URL, r.Host, r.Proto, r.RemoteAddr)
	for _, v := range []string{"id", "a", "b", "c"} {
		fmt.Fprintf(&sb, " %s=%q", v, mc.PathVar(v))
	}
	var hs []string
	for k, v := range r.Header {
		hs = append(hs, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(hs)
	fmt.Fprintf(&sb, "; %s;", strings.Join(hs, " "))
	if p, ok := auth.GetSecurityPrincipalFromContext(ctx).(*auth.User); ok && p != nil {
		fmt.Fprintf(&sb, " by %s %v", p.Id, p.Attachment)
	}
	if n := middleware.GetCSRFNonceFromContext(ctx); n != "" {
		sb.WriteString(" with a nonce")
	}
	fmt.Fprintf(&sb, " token %q", oauth.GetAccessTokenFromContext(ctx).AccessToken)
	if _, ok := ctx.Deadline(); ok {
		sb.WriteString(" in time")
	}
	if err := ctx.Err(); err != nil && mixedOf(r.Context()).op.K == "probe" {
		fmt.Fprintf(&sb, " over: %v", err)
	}
	fmt.Fprintf(&sb, " value %v", ctx.Value(aloneKey{}))
	return sb.String()
}

type aloneKey struct{}

// extra registers the routes of this application.
func (m *mixedParts) extra(mux *gofre.MuxHandler) {
	mark := func(what string) middleware.Middleware {
		return mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
			q := mixedOf(mc.R.Context())
			q.at(spMiddleware)
			resp, err := next(context.WithValue(ctx, aloneKey{}, fmt.Sprintf("%v %s %s", ctx.Value(aloneKey{}), what, q.tag)), mc)
			if err == nil && resp.Headers() != nil {
				resp.Headers().Set("X-Mark", what+" "+mc.R.URL.Path)
			}
			return resp, err
		})
	}
	h := func(name string) handler.Handler {
		return func(ctx context.Context, mc MC) (Resp, error) {
			q := mixedOf(mc.R.Context())
			q.runs++
			text := name + " ok " + q.tag + " " + seenBy(ctx, mc)
			q.at(spHandler)
			x := q.op.I("x")
			hs := response.NewHttpHeaders()
			hs.Set("X-Tag", q.tag)
			hs.Set("X-Path", mc.R.URL.Path)
			ck := response.NewEmptyHttpCookie()
			for i := 0; i < x%4; i++ {
				ck.Add(&http.Cookie{Name: fmt.Sprint("c", i), Value: q.tag, Path: "/" + q.tag, MaxAge: x % 1000})
			}
			switch x / 4 % 12 {
			case 0:
				return nil, gferrors.ErrAccessDenied
			case 1:
				return nil, gferrors.ErrUnauthorizedRequest
			case 2:
				return nil, gferrors.ErrWrongCredentials
			case 3:
				return nil, errors.New("failure " + q.tag)
			case 4:
				return response.JsonHttpResponseWithHeadersAndCookies(201, map[string]any{"text": text, "n": x}, hs, ck), nil
			case 5:
				return response.HtmlHttpResponse(200+x%7, "<p>"+text), nil
			case 6:
				return response.RedirectHttpResponse("/to/" + q.tag + mc.R.URL.Path), nil
			case 7:
				if x%3 == 0 {
					panic("panic " + q.tag)
				}
				return response.PlainTextHttpResponse(400+x%20, text), nil
			case 8:
				return response.HandlerAdaptor(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					w.Header().Set("X-Tag", q.tag)
					w.WriteHeader(200 + x%5)
					io.WriteString(w, seenBy(ctx, mc))
					q.at(spBody)
					fmt.Fprint(w, r.URL)
				})), nil
			}
			return response.PlainTextResponseWithHeadersAndCookies(200+x%9, text+strings.Repeat(" "+q.tag, x%300), hs, ck), nil
		}
	}
	known := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc MC) (auth.SecurityPrincipal, error) {
		q := mixedOf(mc.R.Context())
		q.at(spSupplier)
		if q.op.I("x")%3 == 0 {
			return nil, nil
		}
		return &auth.User{Id: "u", Attachment: q.tag}, nil
	})
	mux.HandleDelete("/e/{a}/{b}", h("deleted"))
	mux.HandleDelete("/g/**", h("deleted"), known)
	mux.HandlePut("/e/{c}", h("put"), known)
	mux.HandleGet("/e/{a}/x", h("first"), mark("m1"))
	mux.HandleGet("/e/{a}/{b}", h("second"), mark("m2"), mark("m3"))
	mux.HandlePost("/e/{a}/{b}", h("second posted"))
	mux.HandleGet("/e/{c}", h("third"), known)
	mux.HandleGet("/g/**", h("fourth"), mark("m4"), known)
	mux.HandlePost("/g/{a}/b/{b}", h("fifth"))
	mux.HandleGet("/w/*/end", h("sixth"), known, mark("m6"))
	mux.HandleGet("/q/*.txt", h("seventh"))
	sub := mux.RouteUsingPathPrefix("/sub")
	sub.CommonMiddlewares(mark("sub"))
	sub.HandleGet("/e/{a}/x", h("mounted first"))
	sub.HandleGet("/e/{a}/{b}", h("mounted second"), mark("s2"))
	sub.HandleGet("/g/**", h("mounted fourth"))
	der := mux.Clone()
	der.CommonMiddlewares(mark("derived"), middleware.PanicRecover())
	der.HandleGet("/der/e/{a}/x", h("derived first"), mark("d1"))
	der.HandleGet("/der/w/*/end", h("derived sixth"))
	mux.CommonMiddlewares(mark("late"))
	mux.HandleGet("/late/{a}", h("late"))
}

var reState = regexp.MustCompile(`state=[^&";]*`)

// answer tells all that can be observed of a served request, in an order of
// its own.
func (q *mixedReq) answer(x *Exchange, nonce bool) []string {
	var out []string
	add := func(what, v string) { out = append(out, what+": "+v) }
	add("status", fmt.Sprint(x.Status))
	var hs []string
	b, err := decodeBody(x)
	stack := bytes.Contains(b, []byte("goroutine "))
	random := nonce || stack || q.kind == mkInitiate
	for k, v := range x.Header {
		v := append([]string{}, v...)
		if random && k == "Content-Length" {
			continue // random texts do not encode to the same length
		}
		if k == "Set-Cookie" {
			sort.Strings(v)
		}
		hs = append(hs, fmt.Sprintf("%s = %q", k, v))
	}
	sort.Strings(hs)
	for _, h := range hs {
		if q.kind == mkInitiate {
			h = reState.ReplaceAllString(h, "state=...")
		}
		add("header", h)
	}
	if stack {
		b = []byte("a stack")
	}
	if err != nil {
		add("body error", err.Error())
	}
	if nonce {
		b = []byte(fmt.Sprintf("a nonce of %d", len(b)))
	}
	if q.kind == mkInitiate {
		b = nil // a link to the same place
	}
	add("body", string(b))
	if x.RW != nil && x.RW.hijacked {
		add("connection", x.RW.Delivered.String())
	}
	add("complete", fmt.Sprint(x.Complete))
	if x.Panic != nil {
		add("panic", x.PanicText)
	}
	add("handler ran", fmt.Sprint(q.runs))
	return out
}

type aloneApp struct {
	*mixedParts
	mux            *gofre.MuxHandler
	nonces, states *briefCache
	logs           []string
}

func runC25(e *Env, c *Case) {
	t1, t2 := oauth.HttpClient.Transport, http.DefaultTransport
	oauth.HttpClient.Transport, http.DefaultTransport = idpBehind(t1), idpBehind(t2)
	defer func() { oauth.HttpClient.Transport, http.DefaultTransport = t1, t2 }()
	e.W.MaxSteps *= 10
	root, err := makeTree()
	if err != nil {
		e.Bug("scratch directory: %v", err)
		return
	}
	simhttp.Hook = func(op *simhttp.Op) error { simrt.Yield(); return nil }
	defer func() { simhttp.Hook = nil }()
	slow := time.Duration(c.C("store")) * time.Millisecond
	none := func() *mixedReq { return nil }
	build := func() *aloneApp {
		a := &aloneApp{nonces: &briefCache{e: e, q: none, slow: slow, m: map[string]bool{}}, states: &briefCache{e: e, q: none, slow: slow, m: map[string]bool{}}}
		a.mixedParts = &mixedParts{e: e, bits: c.I("stack"), level: int(c.C("level")), by: none, nonces: a.nonces, states: a.states, root: root, fold: c.I("fold") == 1, log: func(err error) { a.logs = append(a.logs, err.Error()) }}
		a.mux = a.application()
		if !e.Failed() {
			a.extra(a.mux)
		}
		return a
	}
	logged := func(a *aloneApp, tag string) (out []string) {
		for _, l := range a.logs {
			if strings.Contains(l, tag) {
				// which goroutine it was and where its memory is may differ
				if i := strings.Index(l, "goroutine "); i >= 0 {
					l = l[:i] + "..."
				}
				out = append(out, "logged: "+aloneAddress.ReplaceAllString(l, "0x"))
			}
		}
		sort.Strings(out)
		return out
	}
	serve := func(a *aloneApp, q *mixedReq, spec *ReqSpec) *Exchange {
		spec.Ctx = context.WithValue(context.Background(), mixedKey{}, q)
		spec.OnWriter = func(rw *RW) { q.rw = rw }
		over := false
		if g := q.op.P["gone"]; g > 0 && q.op.K != "probe" {
			spec.OnCancel = func(cancel context.CancelFunc) {
				simrt.Go("network "+q.tag, func() {
					simrt.Sleep(time.Duration(g) * time.Millisecond)
					if !over {
						e.Fault("client disconnect")
						cancel()
					}
				})
			}
		}
		x := e.Serve(a.mux, spec)
		over = true
		return x
	}
	var probes []Op
	if len(c.Actors) > 0 {
		probes = c.Actors[0]
	}
	// request serves a request and returns its answers.
	request := func(a *aloneApp, tag string, op Op) []string {
		urlTag := tag
		orig, mut := op, -1
		own := tag
		if of := op.I("of"); of > 0 && len(probes) > 0 && op.I("mut")%nNear == nmAddress {
			own = fmt.Sprintf("probe%dz", (of-1)%len(probes))
		} else if of > 0 && len(probes) > 0 {
			// a near-copy of a probe
			i := (of - 1) % len(probes)
			urlTag, mut = fmt.Sprintf("probe%dz", i), op.I("mut")%nNear
			cp := Op{K: "req", P: map[string]int64{}}
			for k, v := range probes[i].P {
				cp.P[k] = v
			}
			for _, k := range []string{"fault", "at", "grace", "gone", "stall", "ms"} {
				if v, ok := op.P[k]; ok {
					cp.P[k] = v
				}
			}
			orig, op = op, cp
		}
		k := op.I("kind") % nAlone
		xx := op.I("x")
		if mut >= 0 {
			own = urlTag
		}
		spec := &ReqSpec{Method: "GET", Path: fmt.Sprintf("/m%d/%s", k, urlTag), Query: "v=" + urlTag, Host: own + ".example.com", TLS: op.I("tls") == 1, Remote: fmt.Sprintf("10.0.1.%d:4000", hashString(own)%256), Header: http.Header{}}
		spec.Header.Set("X-Own", own)
		spec.Header.Set("User-Agent", "agent of "+own)
		q := &mixedReq{e: e, op: op, tag: tag, kind: k, unique: true, echo: true}
		if ae := op.I("ae"); ae > 0 {
			spec.Header.Set("Accept-Encoding", acceptEncodings[ae%4])
		}
		switch op.I("origin") {
		case 1:
			spec.Header.Set("Origin", "https://a.example")
		case 2:
			spec.Header.Set("Origin", "https://"+own+".example")
		}
		if xx%3 == 0 {
			spec.Variant = varH2
		}
		if op.K != "probe" {
			if f := orig.I("fault"); f > 0 {
				spec.Fault, spec.FaultAt, spec.Grace = f, orig.P["at"], orig.I("grace")
			}
		}
		setForm := func(b string) {
			spec.Method = "POST"
			spec.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			spec.Body, spec.BodyLen = &stallReader{q: q, at: spRequestBody, data: []byte(b)}, int64(len(b))
		}
		switch k {
		case mkSSE:
			if xx%2 == 0 {
				spec.Header.Set("Last-Event-ID", own)
			}
			spec.Variant, spec.Proto = varH2, 2
		case mkHijack:
			spec.Variant = varH1
			spec.HijackFails = op.I("odd") == 1
		case mkNotFound:
			spec.Path = []string{"/none/" + urlTag, "/m3/" + urlTag + "/" + urlTag}[op.I("odd")%2]
		case mkAsset:
			spec.Path = []string{"/assets/a.txt", "/assets/", "/assets/missing" + urlTag, "/assets/big.bin"}[xx%4]
		case mkPreflight:
			spec.Method = "OPTIONS"
			spec.Header.Set("Access-Control-Request-Method", "POST")
		case mkForm:
			setForm("f=" + strings.Repeat(tag, 1+xx%20))
		case mkInitiate:
			spec.Path, spec.Query = "/oauth/initiate", "provider="+[]string{"github", "google", own}[xx%3]
		case mkAuthorize:
			st := "state " + tag
			if op.I("odd") != 1 {
				a.states.m[st] = true
			}
			spec.Path = "/oauth/authorize/" + []string{"github", "google"}[xx%2]
			spec.Query = "state=" + strings.ReplaceAll(st, " ", "+") + "&code=" + tag
			if xx%7 == 0 {
				spec.Query += "&error=" + tag
			}
		case akExtra, akMounted, akDerived:
			f := extraPaths[xx/64%len(extraPaths)]
			spec.Path = fmt.Sprintf(strings.Replace(f, "%s", urlTag, 1), urlTag)
			if strings.Count(f, "%s") == 1 {
				spec.Path = strings.Replace(f, "%s", urlTag, 1)
			}
			switch k {
			case akMounted:
				spec.Path = "/sub" + spec.Path
			case akDerived:
				spec.Path = []string{"/der", "/late"}[xx/16%2] + spec.Path
				if xx/16%2 == 1 && xx%2 == 0 {
					spec.Path = "/late/" + urlTag
				}
			}
			if op.I("form") == 1 {
				setForm("f=" + tag)
			}
		}
		switch mut {
		case nmHeader:
			spec.Header.Set("X-Own", tag)
			spec.Header.Set("Cookie", "c="+tag)
			spec.Header.Set("Authorization", "Bearer "+tag)
		case nmEncoding:
			spec.Header.Del("Accept-Encoding")
			if op.I("ae") == 0 {
				spec.Header.Set("Accept-Encoding", "gzip")
			}
		case nmOrigin:
			spec.Header.Set("Origin", []string{"https://a.example", "https://other.example", "https://" + spec.Host, "null"}[orig.I("x")%4])
		case nmScheme:
			spec.TLS = !spec.TLS
		case nmHost:
			spec.Host = []string{"other.example.com", "A.example", "a.example:8080"}[orig.I("x")%3]
		case nmMethod:
			spec.Method = []string{"HEAD", "POST", "OPTIONS", "get", "DELETE", "GET", "DELETE", "PUT"}[orig.I("x")%8]
		case nmCase:
			spec.Path = strings.Replace(spec.Path, urlTag, strings.ToUpper(urlTag), 1)
			if orig.I("x")%2 == 0 {
				spec.Path = strings.ToUpper(spec.Path)
			}
		case nmSlash:
			spec.Path = []string{spec.Path + "/", "/" + spec.Path, strings.TrimSuffix(spec.Path, "/")}[orig.I("x")%3]
		case nmSegment:
			spec.Path = []string{spec.Path + "/more", spec.Path + "x", spec.Path[:len(spec.Path)-1]}[orig.I("x")%3]
		case nmQuery:
			spec.Query += "&v=" + tag + []string{"", "%zz", ";a=b"}[orig.I("x")%3]
		case nmPrincipal:
			q.op.P["x"]++
		}
		var out []string
		if k == mkCSRF && spec.Method != "POST" {
			x := serve(a, q, spec)
			if !x.Finished || e.Failed() {
				return nil
			}
			b, _ := decodeBody(x)
			nonce := string(b)
			out = append(out, q.answer(x, true)...)
			if op.I("odd") == 1 {
				nonce = "forged " + tag
			}
			q = &mixedReq{e: e, op: op, tag: tag, kind: k, unique: true, echo: true}
			spec = &ReqSpec{Method: "POST", Path: spec.Path, Header: spec.Header.Clone(), TLS: spec.TLS, Host: spec.Host, Remote: spec.Remote, Fault: spec.Fault, FaultAt: spec.FaultAt, Grace: spec.Grace}
			setForm("pad=1234567890&_csrf=" + nonce)
		}
		x := serve(a, q, spec)
		if !x.Finished || e.Failed() {
			return nil
		}
		return append(out, q.answer(x, k == mkCSRF)...)
	}

	// alone
	expect := make([][]string, len(probes))
	for i, op := range probes {
		a := build()
		if e.Failed() {
			return
		}
		tag := fmt.Sprintf("probe%dz", i)
		e.Actor("alone "+tag, func() { expect[i] = request(a, tag, op) })
		if !e.MustFinish(10000*hour, "stuck") {
			return
		}
		e.Drain(10000 * hour)
		if e.Failed() {
			return
		}
		expect[i] = append(expect[i], logged(a, tag)...)
		e.W.ForgetPools()
		if e.verbose {
			e.trace(fmt.Sprintf("        %s alone: %q", tag, expect[i]))
		}
	}

	// in company
	a := build()
	var others []Op
	for _, ops := range c.Actors[min(1, len(c.Actors)):] {
		others = append(others, ops...)
	}
	if n := c.I("before"); n > 0 && len(others) > 0 {
		e.Actor("before", func() {
			for i := 0; i < n && !e.Failed(); i++ {
				request(a, fmt.Sprintf("b%dz", i), others[i%len(others)])
			}
		})
		if !e.MustFinish(10000*hour, "stuck") {
			return
		}
	}
	again := max(1, c.I("again"))
	got := make([][][]string, len(probes))
	rest := len(probes)
	for i, op := range probes {
		tag := fmt.Sprintf("probe%dz", i)
		e.Actor(tag, func() {
			defer func() { rest-- }()
			for n := 0; n < again && !e.Failed(); n++ {
				got[i] = append(got[i], request(a, tag, op))
			}
		})
	}
	for ai, ops := range c.Actors[min(1, len(c.Actors)):] {
		e.Actor(fmt.Sprintf("client%d", ai), func() {
			for n := 0; n < 3 && rest > 0; n++ {
				for i, op := range ops {
					request(a, fmt.Sprintf("t%dn%dq%dz", ai, n, i), op)
					if e.Failed() {
						return
					}
				}
			}
		})
	}
	if !e.MustFinish(10000*hour, "stuck") {
		return
	}
	e.Drain(10000 * hour)
	if e.Failed() {
		return
	}
	for i := range probes {
		tag := fmt.Sprintf("probe%dz", i)
		var want []string
		logs := map[string]int{}
		for _, l := range expect[i] {
			if strings.HasPrefix(l, "logged: ") {
				logs[l] += len(got[i])
			} else {
				want = append(want, l)
			}
		}
		for n, g := range got[i] {
			e.Check()
			if d := firstDifference(want, g); d != "" {
				e.Fail("differs", "request %s (%s), time %d: alone it was answered %s", tag, aloneName(probes[i]), n+1, d)
				return
			}
		}
		for _, l := range logged(a, tag) {
			logs[l]--
		}
		for _, l := range sortedKeys(logs) {
			if n := logs[l]; n > 0 {
				e.Fail("log", "request %s (%s) was served %d times, and %d times this was not: %s", tag, aloneName(probes[i]), len(got[i]), n, l)
				return
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func aloneName(op Op) string {
	k := op.I("kind") % nAlone
	if k < nMixed {
		return mixedNames[k]
	}
	return []string{"extra route", "mounted route", "derived route"}[k-nMixed]
}

func firstDifference(want, got []string) string {
	for i := 0; i < max(len(want), len(got)); i++ {
		w, g := "nothing more", "nothing more"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			j := 0
			for j < len(w) && j < len(g) && w[j] == g[j] {
				j++
			}
			j = max(0, j-40)
			return fmt.Sprintf("%.300q, and now %.300q (from byte %d)", w[min(j, len(w)):], g[min(j, len(g)):], j)
		}
	}
	return ""
}
