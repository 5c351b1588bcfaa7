package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
)

// C07 OAuth state, C08 provider failures and isolation of flows, C09 bounded
// time.

func init() {
	register(&Scenario{Prop: "C07", Gen: genC07, Run: runC07,
		Rule: "A case is 2-6 tasks initiating OAuth flows and answering them after a pause around the state's lifetime, with states of their own, of others, forged, empty or expired, with error answers and unknown providers, over restarts of the application which keep the remote store, against the in-memory cache, a remote cache which fails, or none, under wall-clock steps."})
	register(&Scenario{Prop: "C08", Gen: genC08, Run: runC08,
		Rule: "A case is 2-6 concurrent OAuth callbacks to two providers at up to two pairs of endpoints; each token and user request is answered correctly, late, or with one of 22 faults (transport errors, error statuses, malformed, truncated, empty, mistyped or incomplete answers)."})
	register(&Scenario{Prop: "C09", Gen: genC09, Run: runC09, Pol: func(r *Rng, p *simrt.Policy) { p.AdvP = 0 },
		Rule: "A case is 1-5 concurrent OAuth callbacks whose provider stalls before the header, within the body, dribbles, answers late or refuses, and whose clients disconnect at a random instant in some cases."})
}

const (
	pfOK = iota
	pfTransport
	pf500json
	pf500html
	pf200error
	pf200malformed
	pfTruncated
	pfMissing
	pfMistyped
	pfEmptyBody
	pfEmptyValue
	pfNull
	pfArray
	pf400error
	pf403empty
	pfTypeMissing
	pfLateError
	pfUnauthorized
	pf300good
	pf304good
	pf503good
	pf404good
	pfTrailing
	nPf
	// slow providers
	pfSlow      // answers after some seconds
	pfStall     // never answers
	pfBodyStall // header, then nothing
	pfDribble   // one byte per second
	pfBodySlow
)

// idp is the stub of the identity providers.
type idp struct {
	e     *Env
	flows map[string]*flow // by code
	calls int
	bad   string
}

// flow is one authorization code flow.
type flow struct {
	tag       string
	prov      string
	tokFault  int
	userFault int
	tokLat    time.Duration
	userLat   time.Duration
	redirect  string
	shape     int // how the provider's answers are written
	variant   int // which optional fields the provider's answers have

	tokCalls, userCalls int
	lastCall            time.Duration
	live                int // provider calls in progress
	handlerRuns         int
	secondRuns          int
	gotToken            oauth.AccessToken
	gotUser             auth.SecurityPrincipal
}

func (f *flow) code() string  { return "code-" + f.tag }
func (f *flow) token() string { return "tok-" + f.prov + "-" + f.tag }

func (d *idp) RoundTrip(req *http.Request) (*http.Response, error) {
	var f *flow
	resp, err := d.serve(req, &f)
	if resp != nil && f != nil {
		resp.Header.Set("Set-Cookie", "sid="+f.tag+"; Path=/")
	}
	return resp, err
}

// session is the flow whose answers the provider gives: who comes with the
// cookie of a session goes on with that session.
func (d *idp) session(req *http.Request, f *flow) *flow {
	if c, err := req.Cookie("sid"); err == nil {
		for _, x := range d.flows {
			if x.tag == c.Value && x.prov == f.prov {
				return x
			}
		}
	}
	return f
}

func (d *idp) serve(req *http.Request, at **flow) (*http.Response, error) {
	simrt.Yield()
	d.calls++
	ctx := req.Context()
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	base := "https://" + req.URL.Host + req.URL.Path
	var f *flow
	isTok := false
	switch base {
	case oauth.GitHubAccessTokenEndpoint:
		v, _ := url.ParseQuery(string(body))
		if t, _, _ := mime.ParseMediaType(req.Header.Get("Content-Type")); t == "application/json" {
			m := map[string]string{}
			json.Unmarshal(body, &m)
			v = url.Values{}
			for k, x := range m {
				v.Set(k, x)
			}
		} else if t != "application/x-www-form-urlencoded" {
			v = url.Values{} // the body is of no type the provider reads
		}
		for k, x := range req.URL.Query() {
			v[k] = append(v[k], x...)
		}
		f, isTok = d.flows[v.Get("code")], true
		if f == nil || f.prov != "github" || v.Get("client_id") != "gh-id" || v.Get("client_secret") != "gh-secret" || req.Method != "POST" {
			return d.answer(ctx, req, 401, `{"error":"bad_verification_code"}`, 0), nil
		}
	case oauth.GoogleAccessTokenEndpoint:
		v := url.Values{}
		switch t, _, _ := mime.ParseMediaType(req.Header.Get("Content-Type")); t {
		case "application/json":
			m := map[string]string{}
			json.Unmarshal(body, &m)
			for k, x := range m {
				v.Set(k, x)
			}
		case "application/x-www-form-urlencoded":
			v, _ = url.ParseQuery(string(body))
		}
		f, isTok = d.flows[v.Get("code")], true
		if f == nil || f.prov != "google" || v.Get("client_id") != "gg-id" || v.Get("client_secret") != "gg-secret" || v.Get("redirect_uri") != f.redirect || v.Get("grant_type") != "authorization_code" || req.Method != "POST" {
			return d.answer(ctx, req, 401, `{"error":{"message":"invalid_grant"}}`, 0), nil
		}
	case oauth.GitHubUserInfoEndpoint, oauth.GoogleUserInfoEndpoint:
		tok := strings.TrimPrefix(req.Header.Get("Authorization"), "Bearer ")
		for _, x := range d.flows {
			if x.token() == tok && (x.prov == "github") == (base == oauth.GitHubUserInfoEndpoint) {
				f = x
			}
		}
		if f == nil || req.Method != "GET" {
			return d.answer(ctx, req, 401, `{"message":"Bad credentials"}`, 0), nil
		}
	default:
		return nil, fmt.Errorf("no such host %s", base)
	}
	f.lastCall = d.e.W.Now()
	f.live++
	fault, lat := f.tokFault, f.tokLat
	if isTok {
		f.tokCalls++
	} else {
		f.userCalls++
		fault, lat = f.userFault, f.userLat
	}
	d.e.Log("provider %s call for %s, fault %d", req.URL.Path, f.tag, fault)
	done := func() { f.live-- }
	if err := d.wait(ctx, lat); err != nil {
		done()
		return nil, err
	}
	*at = f
	good := d.good(d.session(req, f), isTok)
	if isTok && f.prov == "github" && !strings.Contains(req.Header.Get("Accept"), "json") {
		// it answers with a form unless it is asked for JSON
		m := map[string]any{}
		json.Unmarshal([]byte(good), &m)
		v := url.Values{}
		for k, x := range m {
			v.Set(k, fmt.Sprint(x))
		}
		good = v.Encode()
	}
	if fault != pfOK {
		d.e.Fault("provider fault " + pfNames[fault])
	}
	switch fault {
	case pfOK:
		done()
		return d.answer(ctx, req, 200, good, 0), nil
	case pfTransport:
		done()
		return nil, errors.New("dial tcp: connection refused")
	case pfLateError:
		done()
		if err := d.wait(ctx, 3*time.Second); err != nil {
			return nil, err
		}
		return nil, errors.New("read: connection reset by peer")
	case pfSlow:
		defer done()
		if err := d.wait(ctx, 4*time.Second); err != nil {
			return nil, err
		}
		return d.answer(ctx, req, 200, good, 0), nil
	case pfStall:
		defer done()
		return nil, d.wait(ctx, 100000*time.Hour)
	}
	done()
	switch fault {
	case pf500json:
		return d.answer(ctx, req, 500, `{"error":"server_error"}`, 0), nil
	case pf500html:
		return d.answer(ctx, req, 502, `<html>bad gateway</html>`, 0), nil
	case pf200error:
		return d.answer(ctx, req, 200, `{"error":"bad_verification_code","error_description":"expired"}`, 0), nil
	case pf200malformed:
		return d.answer(ctx, req, 200, good[:len(good)/2], 0), nil
	case pfTruncated:
		return d.answer(ctx, req, 200, good, 1), nil
	case pfMissing:
		return d.answer(ctx, req, 200, `{}`, 0), nil
	case pfMistyped:
		return d.answer(ctx, req, 200, `{"access_token":12,"token_type":"bearer","email":7,"login":false,"id":9,"name":[]}`, 0), nil
	case pfEmptyBody:
		return d.answer(ctx, req, 200, ``, 0), nil
	case pfEmptyValue:
		return d.answer(ctx, req, 200, `{"access_token":"","token_type":"bearer","email":"","login":"","id":""}`, 0), nil
	case pfNull:
		return d.answer(ctx, req, 200, `null`, 0), nil
	case pfArray:
		return d.answer(ctx, req, 200, `[{"access_token":"x"}]`, 0), nil
	case pf400error:
		return d.answer(ctx, req, 400, `{"error":{"message":"invalid_grant"}}`, 0), nil
	case pf403empty:
		return d.answer(ctx, req, 403, `{}`, 0), nil
	case pfTypeMissing:
		if isTok {
			return d.answer(ctx, req, 200, `{"access_token":null,"token_type":null}`, 0), nil
		}
		return d.answer(ctx, req, 200, `{"email":null,"login":null,"id":null,"name":"nobody"}`, 0), nil
	case pfUnauthorized:
		return d.answer(ctx, req, 401, good, 0), nil // an error status, whatever the body says
	case pf300good:
		return d.answer(ctx, req, 300, good, 0), nil
	case pf304good:
		return d.answer(ctx, req, 304, good, 0), nil
	case pf503good:
		return d.answer(ctx, req, 503, good, 0), nil
	case pf404good:
		return d.answer(ctx, req, 404, good, 0), nil
	case pfTrailing:
		return d.answer(ctx, req, 200, `"`+good, 0), nil
	case pfBodyStall:
		return d.answer(ctx, req, 200, good, 2), nil
	case pfDribble:
		return d.answer(ctx, req, 200, good+strings.Repeat(" ", 100), 3), nil
	case pfBodySlow:
		return d.answer(ctx, req, 200, good, 4), nil
	}
	return nil, fmt.Errorf("fault %d?", fault)
}

var pfNames = []string{"none", "transport", "500 json", "502 html", "200 with error", "200 malformed", "200 truncated", "fields missing", "fields mistyped", "empty body", "empty values", "null", "array", "400 with error", "403 empty", "null fields", "late transport error", "401 with a good body", "300 with a good body", "304 with a good body", "503 with a good body", "404 with a good body", "unbalanced quote", "", "slow answer", "stall", "stall in the body", "dribbling body", "slow body"}

func (d *idp) good(f *flow, isTok bool) string {
	var v map[string]any
	if isTok {
		v = map[string]any{"access_token": f.token(), "token_type": "bearer-" + f.tag, "scope": "s1-" + f.tag + ",s2"}
		if f.prov == "google" {
			v["scope"] = "s1-" + f.tag + " s2"
			v["refresh_token"] = "ref-" + f.tag
			v["expires_in"] = 3599
		}
		if f.variant&1 != 0 {
			delete(v, "scope")
			delete(v, "refresh_token")
		}
		if f.variant&2 != 0 {
			delete(v, "expires_in")
			v["extra"] = map[string]any{"access_token": "x"}
		}
	} else {
		v = map[string]any{"email": f.tag + "@example.com", "login": "l-" + f.tag, "id": "i-" + f.tag, "name": "n-" + f.tag}
		switch f.variant & 3 {
		case 1:
			v["email"] = nil
		case 2:
			delete(v, "email")
			delete(v, "name")
		case 3:
			v["email"], v["name"] = "", nil
		}
	}
	// complete answers come in many shapes
	switch f.shape {
	case 1:
		v["a_note"] = "\u2028 <b>&\"\\ é"
		b, _ := json.MarshalIndent(v, "\t", "   ")
		return "\n  " + string(b) + "\n\n"
	case 2, 3, 4:
		n := []int{600, 9000, 70000}[f.shape-2]
		v["a_bio"] = strings.Repeat("long ", n/10)
		v["zz"] = map[string]any{"plan": strings.Split(strings.Repeat("x,", n/8), ","), "error": nil}
	case 5:
		v["a_limits"] = []any{1.5e300, -7, true, nil, map[string]any{"email": "other@example.com", "access_token": "other"}}
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (d *idp) wait(ctx context.Context, t time.Duration) error {
	if t <= 0 {
		simrt.Yield()
		return ctx.Err()
	}
	tm := time.NewTimer(t)
	defer tm.Stop()
	k := simrt.Select(false, simrt.SelRecv(ctx.Done()), simrt.SelRecv(tm.C))
	simrt.Yield()
	if k == 0 {
		return ctx.Err()
	}
	return nil
}

func (d *idp) answer(ctx context.Context, req *http.Request, code int, body string, how int) *http.Response {
	h := http.Header{"Content-Type": {"application/json"}}
	if code >= 400 {
		// it would rather be left alone for an hour
		h.Set("Retry-After", "3600")
		h.Set("X-Ratelimit-Remaining", "0")
		h.Set("X-Ratelimit-Reset", "4102444800")
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: &idpBody{d: d, ctx: ctx, data: []byte(body), how: how}, ContentLength: -1, Request: req}
}

type idpBody struct {
	d    *idp
	ctx  context.Context
	data []byte
	pos  int
	how  int
}

func (b *idpBody) Close() error { return nil }
func (b *idpBody) Read(p []byte) (int, error) {
	simrt.Yield()
	n := len(p)
	switch b.how {
	case 1:
		if b.pos >= len(b.data)/2 {
			return 0, io.ErrUnexpectedEOF
		}
		n = min(n, len(b.data)/2-b.pos)
	case 2:
		if b.pos >= len(b.data)/2 {
			return 0, b.d.wait(b.ctx, 100000*time.Hour)
		}
		n = min(n, len(b.data)/2-b.pos)
	case 3:
		if err := b.d.wait(b.ctx, time.Second); err != nil {
			return 0, err
		}
		n = 1
	case 4:
		if err := b.d.wait(b.ctx, 500*time.Millisecond); err != nil {
			return 0, err
		}
		n = 20
	}
	if b.ctx.Err() != nil {
		return 0, b.ctx.Err()
	}
	n = min(n, len(b.data)-b.pos, len(p))
	if n <= 0 {
		return 0, io.EOF
	}
	copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

// recCache records what goes through a cache.
type recCache struct {
	e     *Env
	in    cache.Cache
	added map[string]*stateRec
	last  map[string]*stateRec // by task
}
type stateRec struct {
	call, ret time.Duration
	ttl       time.Duration
	failed    bool
	by        string
}

func (c *recCache) Add(key string, d time.Duration) error {
	r := &stateRec{call: c.e.W.Now(), ret: -1, ttl: d, by: simrt.SelfName()}
	if old := c.added[key]; old != nil && !(old.by == r.by && old.failed) {
		c.e.Fail("state", "the state %q was generated twice", key)
	}
	c.added[key] = r
	c.last[r.by] = r
	err := c.in.Add(key, d)
	r.ret, r.failed = c.e.W.Now(), err != nil
	return err
}
func (c *recCache) Remove(key string)        { c.in.Remove(key) }
func (c *recCache) Contains(key string) bool { return c.in.Contains(key) }

type oauthApp struct {
	*App
	d      *idp
	rec    *recCache
	dist   *distCache
	ttl    time.Duration
	provs  []string
	base   string // absolute base of the redirect URI
	init   string
	auth   string
	scopes map[string][]string
	undo   func()
	cfg    oauth.Config
	spare  []string
	gh, gg map[string]string // options in the redirect address
	errmw  bool
	second *oauthApp // another pair of endpoints which shares the providers
}

// status is what an error of the application is answered with: without the
// error middleware it is 500.
func (o *oauthApp) status(s int) int {
	if o.errmw {
		return s
	}
	return 500
}

// newOAuthApp sets up an application with the OAuth endpoints. provs: 0 both,
// 1 GitHub, 2 Google.
func newOAuthApp(e *Env, c *Case) *oauthApp {
	o := &oauthApp{App: newApp(e, nil), d: &idp{e: e, flows: map[string]*flow{}}, scopes: map[string][]string{}}
	if c.I("errmw") == 1 {
		o.Mux.CommonMiddlewares(middleware.ErrJsonResponse())
	}
	o.errmw = c.I("errmw") == 1
	t1, t2 := oauth.HttpClient.Transport, http.DefaultTransport
	oauth.HttpClient.Transport, http.DefaultTransport = o.d, o.d
	o.undo = func() { oauth.HttpClient.Transport, http.DefaultTransport = t1, t2 }
	spare := make([]string, 1, 8)
	spare[0] = "sc-one"
	if c.I("scopes") == 1 {
		spare = append(spare, "sc-two")
	}
	o.spare = spare
	opts := c.I("opts")
	gh := oauth.GitHubProvider{ClientId: "gh-id", ClientSecret: "gh-secret", Scopes: spare, AllowSignup: opts&1 == 0}
	gg := oauth.GoogleProvider{ClientId: "gg-id", ClientSecret: "gg-secret", Scopes: spare, AccessTypeOffline: opts&1 == 0, IncludeGrantedScopes: opts&2 != 0}
	o.gh = map[string]string{"allow_signup": fmt.Sprint(gh.AllowSignup)}
	o.gg = map[string]string{"include_granted_scopes": fmt.Sprint(gg.IncludeGrantedScopes), "response_type": "code"}
	if gg.AccessTypeOffline {
		o.gg["access_type"] = "offline"
	}
	if opts&4 != 0 {
		gh.Login, gg.LoginHint = "jo & co", "jo@x.example"
		o.gh["login"], o.gg["login_hint"] = gh.Login, gg.LoginHint
	}
	if opts&8 != 0 {
		gg.Prompts = []string{"consent", "select_account"}
		o.gg["prompt"] = "consent select_account"
	}
	o.scopes["github"], o.scopes["google"] = append([]string(nil), spare...), append([]string(nil), spare...)
	if opts&16 != 0 {
		gh.Scopes = nil
		o.scopes["github"] = nil
	}
	cfg := oauth.Config{WebsiteUrl: "https://www.example.com", FetchUserDetails: c.I("user") == 1}
	switch c.I("provs") {
	case 1:
		cfg.Providers, o.provs = []oauth.Provider{gh}, []string{"github"}
	case 2:
		cfg.Providers, o.provs = []oauth.Provider{gg}, []string{"google"}
	default:
		cfg.Providers, o.provs = []oauth.Provider{gh, gg}, []string{"github", "google"}
	}
	o.ttl = time.Duration(max(1, c.C("ttl"))) * time.Millisecond
	cfg.CacheConfig.KeyExpirationTime = o.ttl
	switch c.I("cache") {
	case 1:
		o.rec = &recCache{e: e, in: cache.NewInMemory(), added: map[string]*stateRec{}, last: map[string]*stateRec{}}
		cfg.CacheConfig.Cache = o.rec
	case 2:
		o.dist = newDistCache(e, time.Duration(c.C("lat"))*time.Millisecond)
		o.rec = &recCache{e: e, in: o.dist, added: map[string]*stateRec{}, last: map[string]*stateRec{}}
		cfg.CacheConfig.Cache = o.rec
	}
	o.cfg = cfg
	h := func(ctx context.Context, mc MC) (Resp, error) {
		f := o.d.flows[mc.R.FormValue("code")]
		if f == nil {
			e.Fail("contact", "the handler ran for a code no flow has: %q", mc.R.FormValue("code"))
			return response.PlainTextHttpResponseOK("?"), nil
		}
		f.handlerRuns++
		simrt.Yield()
		f.gotToken = oauth.GetAccessTokenFromContext(ctx)
		f.gotUser = auth.GetSecurityPrincipalFromContext(ctx)
		simrt.Yield()
		return response.PlainTextHttpResponseOK("welcome " + f.tag), nil
	}
	var mux *gofre.MuxHandler = o.Mux
	prefix := ""
	if c.I("prefix") == 1 {
		prefix = "/app"
		mux = mux.RouteUsingPathPrefix("/app")
	}
	if c.I("paths") == 1 {
		o.init, o.auth = prefix+"/login", prefix+"/callback"
		mux.HandleOAUTH2WithCustomPaths("/login", "/callback", cfg, h, nil, nil)
	} else {
		o.init, o.auth = prefix+"/oauth/initiate", prefix+"/oauth/authorize"
		mux.HandleOAUTH2(cfg, h, nil, nil)
	}
	o.base = cfg.WebsiteUrl + o.auth + "/"
	if c.I("second") == 1 {
		// the same clients at the providers with another address and no cache
		t := *o
		t.init, t.auth = "/admin/login", "/admin/callback"
		t.cfg.WebsiteUrl = "https://admin.example.com"
		t.cfg.FetchUserDetails = !cfg.FetchUserDetails
		t.cfg.CacheConfig.Cache = nil
		t.rec, t.dist = nil, nil
		if o.rec != nil {
			t.rec = &recCache{e: e, in: cache.NewInMemory(), added: map[string]*stateRec{}, last: map[string]*stateRec{}}
			t.cfg.CacheConfig.Cache = t.rec
		}
		t.base = t.cfg.WebsiteUrl + t.auth + "/"
		o.Mux.HandleOAUTH2WithCustomPaths(t.init, t.auth, t.cfg, func(ctx context.Context, mc MC) (Resp, error) {
			if f := o.d.flows[mc.R.FormValue("code")]; f != nil {
				f.secondRuns++
			}
			return h(ctx, mc)
		}, nil, nil)
		o.second = &t
	}
	return o
}

func (o *oauthApp) authorize(f *flow, q url.Values) *ReqSpec {
	f.redirect = o.base + f.prov
	o.d.flows[f.code()] = f
	q.Set("code", f.code())
	return &ReqSpec{Method: "GET", Path: o.auth + "/" + f.prov, Query: q.Encode()}
}

// checkInitiate verifies the redirect of an initiate request and returns the
// state.
func (e *Env) checkInitiate(o *oauthApp, x *Exchange, tag, prov string) (string, bool) {
	u, err := url.Parse(x.Header.Get("Location"))
	if x.Status != 302 || err != nil {
		e.Fail("initiate", "request %s: initiating a flow got status %d, Location %q", tag, x.Status, x.Header.Get("Location"))
		return "", false
	}
	q := u.Query()
	end, id := oauth.GitHubAuthorizeEndpoint, "gh-id"
	if prov == "google" {
		end, id = oauth.GoogleAuthorizeEndpoint, "gg-id"
	}
	if "https://"+u.Host+u.Path != end || q.Get("client_id") != id || q.Get("redirect_uri") != o.base+prov {
		e.Fail("initiate", "request %s: the redirect to %s goes to %s", tag, prov, trunc(u.String()))
		return "", false
	}
	want := append([]string(nil), o.scopes[prov]...)
	if o.cfg.FetchUserDetails {
		if prov == "github" {
			want = append(want, oauth.GitHubUserInfoProfileScopes...)
		} else {
			want = append(want, oauth.GoogleUserInfoScopes...)
		}
	}
	others, keys := o.gh, []string{"allow_signup", "login"}
	if prov == "google" {
		others, keys = o.gg, []string{"include_granted_scopes", "response_type", "access_type", "login_hint", "prompt"}
	}
	for _, k := range keys {
		if v := q.Get(k); v != others[k] && !(k == "access_type" && others[k] == "" && v == "online") {
			e.Fail("initiate", "request %s: the redirect to %s has %s=%q instead of the configured %q", tag, prov, k, v, others[k])
			return "", false
		}
	}
	// without any scope the provider's default applies
	if q.Get("scope") != strings.Join(want, " ") && len(want) > 0 {
		e.Fail("initiate", "request %s: the redirect to %s asks for scope %q instead of %q", tag, prov, q.Get("scope"), want)
		return "", false
	}
	s := q.Get("state")
	if s == "" || len(q["state"]) != 1 {
		e.Fail("initiate", "request %s: the redirect to %s has the states %q", tag, prov, q["state"])
		return "", false
	}
	return s, true
}

// --- C07

func genC07(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("errmw", r.Intn(2), "provs", r.Intn(3), "cache", []int{1, 1, 2, 2, 0}[r.Intn(5)], "ttl", []int{1, 20, 1000, 60000, 600000}[r.Intn(5)], "lat", []int{0, 1, 50}[r.Intn(3)], "prefix", r.Intn(2), "paths", r.Intn(2), "user", r.Intn(2), "scopes", r.Intn(2), "opts", r.Intn(32))}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(4); i++ {
			p := P("prov", r.Intn(2), "pause", r.Intn(6))
			if r.Intn(6) == 0 {
				p["addfail"] = int64(1 + r.Intn(2))
			}
			if r.Intn(6) == 0 {
				p["outage"] = 1
			}
			if r.Intn(8) == 0 {
				p["unknown"] = int64(1 + r.Intn(2))
			}
			p["ans"] = int64(r.Intn(10)) // what comes back: see runC07
			p["again"] = int64(r.Intn(4) / 3)
			if r.Intn(12) == 0 {
				p["restart"] = 1
			}
			ops = append(ops, Op{K: "flow", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	if r.Intn(2) == 0 {
		c.Actors = append(c.Actors, genWall(r))
	}
	return c
}

func runC07(e *Env, c *Case) {
	o := newOAuthApp(e, c)
	defer o.undo()
	states := map[string]string{} // state -> tag
	issued := map[string]*stateRec{}
	var all []string
	rest, walls := splitActors(c, "jump")
	for _, w := range walls {
		e.wallJumps(w)
	}
	for ai, ops := range rest {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				prov := o.provs[op.I("prov")%len(o.provs)]
				if op.I("restart") == 1 {
					// another instance of the application, which shares the remote
					// cache, goes on: its math/rand generator (Go 1.19 does not seed
					// it) begins with the same sequence
					e.Fault("instance restarted with an unseeded math/rand")
					simrt.Restart(simrt.StreamRand)
				}
				// initiate
				spec := &ReqSpec{Method: "GET", Path: o.init}
				if len(o.provs) > 1 {
					spec.Query = "provider=" + prov
					if op.I("unknown") == 1 {
						spec.Query = "provider=facebook"
					} else if op.I("unknown") == 2 {
						spec.Query = ""
					}
				}
				if o.dist != nil {
					o.dist.addFail[me] = op.I("addfail")
				}
				before := 0
				if o.rec != nil {
					before = countBy(o.rec.added, me)
				}
				x := e.Serve(o.Mux, spec)
				e.Check()
				e.Log("%s initiate: status %d", tag, x.Status)
				if x.Panic != nil {
					e.Fail("panic", "request %s: ServeHTTP panicked: %v", tag, x.PanicText)
					return
				}
				state := ""
				switch {
				case len(o.provs) > 1 && op.I("unknown") > 0:
					if x.Status != o.status(400) || x.Header.Get("Location") != "" {
						e.Fail("initiate", "request %s for an unknown provider got status %d", tag, x.Status)
						return
					}
				case o.dist != nil && op.I("addfail") > 0:
					e.Probe("state could not be saved")
					if x.Status != 500 || x.Header.Get("Location") != "" {
						e.Fail("initiate", "request %s whose state could not be saved got status %d, Location %q", tag, x.Status, x.Header.Get("Location"))
						return
					}
				default:
					s, ok := e.checkInitiate(o, x, tag, prov)
					if !ok {
						return
					}
					if other, dup := states[s]; dup {
						e.Fail("state", "requests %s and %s got the same state %q", other, tag, s)
						return
					}
					states[s] = tag
					all = append(all, s)
					state = s
					if o.rec != nil {
						r := o.rec.last[me]
						if r == nil || r.ttl != o.ttl || r.failed {
							e.Fail("initiate", "request %s: the state %q was not saved for %v (%+v)", tag, s, o.ttl, r)
							return
						}
						if n := countBy(o.rec.added, me) - before; n != 1 {
							e.Fail("initiate", "request %s saved %d states", tag, n)
							return
						}
						// under which key is the framework's business
						issued[s] = r
					}
				}
				if o.dist != nil {
					o.dist.addFail[me] = 0
				}
				// some time later the browser comes back
				switch op.I("pause") {
				case 1:
					pause(int64(o.ttl/time.Millisecond) / 2)
				case 2:
					pause(int64(o.ttl / time.Millisecond))
				case 3:
					pause(int64(o.ttl/time.Millisecond) + 1)
				case 4:
					pause(int64(o.ttl/time.Millisecond) - 1)
				case 5:
					pause(int64(o.ttl/time.Millisecond) * 3)
				}
				for rep := 0; rep <= op.I("again"); rep++ {
					f := &flow{tag: fmt.Sprintf("%sr%d", tag, rep), prov: prov}
					q := url.Values{}
					errParam, unknown := false, false
					switch op.I("ans") {
					case 0: // no state at all
					case 1:
						q.Set("state", "")
					case 2:
						q.Set("state", fmt.Sprintf("forged%06d", e.R.Intn(1000000)))
					case 3:
						if len(all) > 0 { // somebody else's
							q.Set("state", all[e.R.Intn(len(all))])
						}
					case 4:
						q.Set("state", state)
						q.Set("error", "access_denied")
						errParam = true
					case 5:
						q.Set("state", state)
						f.prov = "facebook"
						unknown = true
					case 6:
						if state != "" { // nearly right
							q.Set("state", mutateState(&e.R, state))
						}
					default:
						q.Set("state", state)
					}
					sent := q.Get("state")
					if o.dist != nil {
						o.dist.outage[me] = op.I("outage") == 1
					}
					t0 := e.W.Now()
					spec := o.authorize(f, q)
					x := e.Serve(o.Mux, spec)
					t1 := e.W.Now()
					out := o.dist != nil && o.dist.outage[me]
					if o.dist != nil {
						o.dist.outage[me] = false
					}
					e.Check()
					e.Log("%s authorize %q: status %d, contacted %d", f.tag, sent, x.Status, f.tokCalls)
					if x.Panic != nil {
						e.Fail("panic", "request %s: ServeHTTP panicked: %v", f.tag, x.PanicText)
						return
					}
					deny := func(why string, status int) bool {
						e.Probe("refused: " + why)
						status = o.status(status)
						if f.tokCalls+f.userCalls+f.handlerRuns > 0 || x.Status != status {
							e.Fail("gate", "request %s (%s, state %q): status %d instead of %d, the provider was contacted %d times, the handler ran %d times", f.tag, why, sent, x.Status, status, f.tokCalls+f.userCalls, f.handlerRuns)
							return false
						}
						return true
					}
					if unknown {
						if !deny("unknown provider", 400) {
							return
						}
						continue
					}
					if errParam {
						if !deny("error answer", 401) {
							return
						}
						continue
					}
					if o.rec != nil {
						r := issued[sent]
						if r == nil {
							if !deny("state never issued", 401) {
								return
							}
							continue
						}
						if out {
							if !deny("state cannot be looked up", 401) {
								return
							}
							continue
						}
						if r.ret >= 0 && t0-r.ret >= r.ttl {
							if !deny("state expired", 401) {
								return
							}
							continue
						}
						if r.failed || r.ret < 0 || t1-r.call >= r.ttl {
							continue // either may be right
						}
					}
					if x.Took > 9*time.Second {
						continue // the http client may have given up
					}
					e.Probe("accepted")
					if x.Status != 200 || f.tokCalls != 1 || f.handlerRuns != 1 || string(x.Body) != "welcome "+f.tag {
						e.Fail("gate", "request %s with the valid state %q: status %d, the provider was contacted %d times, the handler ran %d times", f.tag, sent, x.Status, f.tokCalls, f.handlerRuns)
						return
					}
				}
			}
		})
	}
	e.MustFinish(1000*time.Hour, "stuck")
}

func mutateState(r *Rng, s string) string {
	b := []byte(s)
	switch r.Intn(4) {
	case 0:
		return s[:len(s)-1]
	case 1:
		return s + "a"
	case 2:
		if u := strings.ToUpper(s); u != s {
			return u
		}
	}
	i := r.Intn(len(b))
	if b[i] == 'z' {
		b[i] = 'y'
	} else {
		b[i] = 'z'
	}
	return string(b)
}

func countBy(m map[string]*stateRec, by string) int {
	n := 0
	for _, r := range m {
		if r.by == by {
			n++
		}
	}
	return n
}

// --- C08

func genC08(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("errmw", r.Intn(2), "provs", []int{0, 0, 0, 1, 2}[r.Intn(5)], "user", r.Intn(4), "ttl", 600000, "cache", r.Intn(2), "second", r.Intn(3)/2, "prefix", r.Intn(2), "paths", r.Intn(2))}
	if c.Cfg["user"] > 1 {
		c.Cfg["user"] = 1
	}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(3); i++ {
			p := P("prov", r.Intn(2), "tl", r.Intn(3)*r.Intn(2), "ul", r.Intn(3)*r.Intn(2), "var", r.Intn(4)*r.Intn(2), "at", r.Intn(2))
			if r.Intn(3) == 0 {
				p["shape"] = int64(1 + r.Intn(5))
			}
			switch r.Intn(3) {
			case 0:
				p["tf"] = int64(r.Intn(nPf))
			case 1:
				p["uf"] = int64(r.Intn(nPf))
			}
			ops = append(ops, Op{K: "flow", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func runC08(e *Env, c *Case) {
	app := newOAuthApp(e, c)
	defer app.undo()
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				o := app
				if app.second != nil && op.I("at") == 1 {
					o = app.second
					e.Probe("second pair of endpoints")
				}
				prov := o.provs[op.I("prov")%len(o.provs)]
				f := &flow{tag: tagOf(ai, i), prov: prov, tokFault: op.I("tf") % nPf, userFault: op.I("uf") % nPf, tokLat: time.Duration(op.I("tl")) * 300 * time.Millisecond, userLat: time.Duration(op.I("ul")) * 300 * time.Millisecond, variant: op.I("var"), shape: op.I("shape")}
				q := url.Values{}
				if o.rec != nil {
					x := e.Serve(o.Mux, &ReqSpec{Method: "GET", Path: o.init, Query: "provider=" + prov})
					s, ok := e.checkInitiate(o, x, f.tag, prov)
					if !ok {
						return
					}
					q.Set("state", s)
				}
				before := len(o.errsBy(me))
				x := e.Serve(o.Mux, o.authorize(f, q))
				logged := o.errsBy(me)[before:]
				e.Check()
				e.Log("%s %s: status %d, token fault %s, user fault %s, handler %d", f.tag, prov, x.Status, pfNames[f.tokFault], pfNames[f.userFault], f.handlerRuns)
				where := fmt.Sprintf("flow %s at %s (token request: %s, user request: %s)", f.tag, prov, pfNames[f.tokFault], pfNames[f.userFault])
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", where, x.PanicText)
					return
				}
				fail := f.tokFault != pfOK || o.cfg.FetchUserDetails && f.userFault != pfOK
				if fail {
					e.Probe("failed flow")
					if f.handlerRuns != 0 || x.Status < 400 {
						e.Fail("failed-flow", "%s: status %d, the handler ran %d times with the token %q", where, x.Status, f.handlerRuns, f.gotToken.AccessToken)
						return
					}
					if !o.errmw && len(logged) != 1 {
						e.Fail("failed-flow", "%s: %d errors logged: %q", where, len(logged), logged)
						return
					}
					if f.tokFault != pfOK && f.userCalls > 0 {
						e.Fail("failed-flow", "%s: the user was asked for without a token", where)
						return
					}
					continue
				}
				if x.Took > 9*time.Second {
					continue // the http client may have given up
				}
				e.Probe("complete flow")
				if x.Status != 200 || f.handlerRuns != 1 || f.tokCalls != 1 || string(x.Body) != "welcome "+f.tag || len(logged) != 0 {
					e.Fail("flow", "%s: status %d, handler runs %d, token requests %d, logged %q", where, x.Status, f.handlerRuns, f.tokCalls, logged)
					return
				}
				if (o == app.second) != (f.secondRuns == 1) {
					e.Fail("flow", "%s: the handler of another callback ran", where)
					return
				}
				want := oauth.AccessToken{AccessToken: f.token(), TokenType: "bearer-" + f.tag, Scopes: []string{"s1-" + f.tag, "s2"}}
				if prov == "google" {
					want.RefreshToken, want.ExpiresInSeconds = "ref-"+f.tag, 3599
				}
				if f.variant&1 != 0 {
					want.Scopes, want.RefreshToken = nil, ""
				}
				if f.variant&2 != 0 {
					want.ExpiresInSeconds = 0
				}
				if fmt.Sprint(f.gotToken) != fmt.Sprint(want) {
					e.Fail("token", "%s: the handler got the token %+v instead of %+v", where, f.gotToken, want)
					return
				}
				gu := fmt.Sprintf("%T", f.gotUser)
				if u, ok := f.gotUser.(*auth.User); ok && u != nil {
					gu = fmt.Sprintf("%s/%s/%s", u.Id, u.Name, u.IdentityPlatform)
				} else if u, ok := f.gotUser.(auth.User); ok {
					gu = fmt.Sprintf("%s/%s/%s", u.Id, u.Name, u.IdentityPlatform)
				}
				wu := "<nil>"
				if o.cfg.FetchUserDetails {
					id, name := f.tag+"@example.com", "n-"+f.tag
					if f.variant&3 != 0 {
						id = map[string]string{"github": "l-", "google": "i-"}[prov] + f.tag
					}
					if f.variant&2 != 0 {
						name = ""
					}
					wu = fmt.Sprintf("%s/%s/%s", id, name, prov)
				}
				if gu != wu {
					e.Fail("user", "%s: the handler got the user %s instead of %s", where, gu, wu)
					return
				}
			}
		})
	}
	e.MustFinish(1000*time.Hour, "stuck")
}

// --- C09

func genC09(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("provs", r.Intn(3), "user", 1, "ttl", 600000, "cache", 0)}
	slow := []int64{pfSlow, pfStall, pfBodyStall, pfDribble, pfBodySlow, pfOK, 0}
	for a := 0; a < 1+r.Intn(5); a++ {
		slow[6] = []int64{pf503good, pf500json, pf403empty, pf400error, pfUnauthorized, pfTransport, pf404good}[r.Intn(7)]
		var ops []Op
		for i := 0; i < 1+r.Intn(2); i++ {
			p := P("prov", r.Intn(2), "tf", slow[r.Intn(7)], "uf", slow[r.Intn(7)], "tl", r.Intn(12)*r.Intn(2), "ul", r.Intn(12)*r.Intn(2))
			if r.Intn(2) == 0 {
				p["gone"] = int64(1 + r.Intn(25000))
			}
			ops = append(ops, Op{K: "flow", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func runC09(e *Env, c *Case) {
	o := newOAuthApp(e, c)
	defer o.undo()
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				prov := o.provs[op.I("prov")%len(o.provs)]
				f := &flow{tag: tagOf(ai, i), prov: prov, tokFault: op.I("tf"), userFault: op.I("uf"), tokLat: time.Duration(op.I("tl")) * time.Second, userLat: time.Duration(op.I("ul")) * time.Second}
				spec := o.authorize(f, url.Values{})
				over := false
				if g := op.P["gone"]; g > 0 {
					spec.OnCancel = func(cancel context.CancelFunc) {
						simrt.Go("network "+f.tag, func() {
							simrt.Sleep(time.Duration(g) * time.Millisecond)
							if !over {
								e.Fault("client disconnect")
								e.Log("client of %s disconnects", f.tag)
								cancel()
							}
						})
					}
				}
				x := e.Serve(o.Mux, spec)
				over = true
				e.Check()
				e.Log("%s %s: status %d after %v, token %s+%v, user %s+%v", f.tag, prov, x.Status, x.Took, pfNames[f.tokFault], f.tokLat, pfNames[f.userFault], f.userLat)
				where := fmt.Sprintf("flow %s at %s (token request: %s after %v, user request: %s after %v)", f.tag, prov, pfNames[f.tokFault], f.tokLat, pfNames[f.userFault], f.userLat)
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", where, x.PanicText)
					return
				}
				if x.Took > 20*time.Second+500*time.Millisecond {
					e.Fail("late", "%s was answered after %v", where, x.Took)
					return
				}
				if ca := x.RW.CancelAt; ca >= 0 {
					e.Probe("disconnected while the provider was being asked")
					if lag := e.W.Now() - ca; lag > time.Second {
						e.Fail("late-return", "%s went on for %v after its client had gone", where, lag)
						return
					}
					if f.lastCall > ca {
						e.Fail("late-return", "%s: the provider was asked %v after the client had gone", where, f.lastCall-ca)
						return
					}
				}
				if f.live != 0 {
					e.Fail("abandoned", "%s: %d provider requests go on after the answer", where, f.live)
					return
				}
				if x.RW.CancelAt < 0 {
					quick := func(fault int, lat time.Duration) bool {
						switch fault {
						case pfOK:
							return lat < 9*time.Second
						case pfSlow:
							return lat+4*time.Second < 9*time.Second
						case pfBodySlow:
							return lat+6*time.Second < 9*time.Second
						}
						return false
					}
					if quick(f.tokFault, f.tokLat) && quick(f.userFault, f.userLat) {
						e.Probe("slow provider answered in time")
						if x.Status != 200 || f.handlerRuns != 1 {
							e.Fail("gave-up", "%s: status %d after %v, the handler ran %d times", where, x.Status, x.Took, f.handlerRuns)
							return
						}
					} else if x.Status == 200 || f.handlerRuns > 0 {
						// within the limits of the http client it may have worked out
						e.Probe("very slow provider answered")
					}
				}
			}
		})
	}
	if !e.MustFinish(1000*time.Hour, "stuck") {
		return
	}
	e.Drain(10 * time.Hour)
}
