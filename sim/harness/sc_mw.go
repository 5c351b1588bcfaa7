package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/ixtendio/gofre/auth"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
	"verifsim/simtime"
)

// C16 authorization, C18 request dumper, C19 CORS and security headers.

func init() {
	register(&Scenario{Prop: "C16", Near: true, Gen: genC16, Run: runC16,
		Rule: "A case is 2-6 clients of 3-5 principals (users with roles, roles that only deny, groups, wildcards and denied permissions, and a principal whose permissions are granted and revoked while the run proceeds) sending requests to routes demanding all, any or request-dependent permissions at up to three places one after the other, with slow, failing and empty suppliers; every decision is compared with an independent model where the permissions did not change meanwhile."})
	register(&Scenario{Prop: "C18", Near: true, Gen: genC18, Run: runC18,
		Rule: "A case is 2-6 clients sending requests with random methods, URLs, headers, cookies, forms and TLS to handlers answering, failing or panicking after a pause, behind RequestDumper with a slow logger between other middlewares; each record is decoded and compared with its request and response."})
	register(&Scenario{Prop: "C19", Near: true, Gen: genC19, Run: runC19,
		Rule: "A case is two random CORS and two random security header configurations serving 2-6 clients whose requests differ in origin, method, preflight headers, scheme and TLS; every answer is compared with a model of the decision for that request alone."})
}

// --- C16

// livePrincipal is a principal whose permissions change.
type livePrincipal struct {
	e       *Env
	name    string
	scopes  map[string]auth.Access
	version int
	slow    int64
	calls   int
}

func (p *livePrincipal) Identity() string    { return p.name }
func (p *livePrincipal) HasRole(string) bool { return false }
func (p *livePrincipal) String() string      { return p.name }
func (p *livePrincipal) HasPermission(x auth.Permission) bool {
	pause(p.slow)
	p.calls++
	return p.scopes[x.Scope]&x.Access == x.Access && p.scopes[x.Scope] != 0
}

var permScopes = []string{"admin/timesheet/team1", "admin/timesheet/team2", "admin/payroll/team1", "shop/orders/eu", "shop/orders", "admin", "shop/orders/orders", "shop/shop", "shop", "shop/Orders", "Admin/timesheet/team1", "shop/orders/eu2"}
var grantScopes = []string{"admin/timesheet/team1", "admin/timesheet/*", "admin/*/team1", "admin/*", "*", "shop/orders/eu", "shop/*", "shop/orders", "admin", "other/orders/eu", "shop", "*/orders", "*/*/eu", "Shop/orders", "admin/timesheet/Team1"}

// implied is the documented meaning of a granted scope.
func implied(grant, want string) bool {
	g, w := strings.Split(grant, "/"), strings.Split(want, "/")
	if len(w) < len(g) {
		return false
	}
	for len(g) < len(w) && g[len(g)-1] == "*" {
		g = append(g, "*")
	}
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != "*" && g[i] != w[i] {
			return false
		}
	}
	return true
}

func permAt(seed int64) auth.Permission {
	return auth.Permission{Scope: permScopes[seed%int64(len(permScopes))], Access: anyAccess(seed / 7)}
}

// anyAccess is mostly one of few, which overlap.
func anyAccess(n int64) auth.Access {
	switch k := n / 7 % 8; k {
	case 6:
		return auth.Access(1+n%7) << 6
	case 7:
		return auth.AccessAll()
	}
	return auth.Access(1 + n%7)
}

// configured gives the permission as an application reads it from its settings.
func configured(e *Env, p auth.Permission, how int) auth.Permission {
	if how == 0 {
		return p
	}
	// more than an access has room for
	for _, more := range []uint64{1 << 32, 1 << 33, 1 << 63} {
		if q, err := auth.ParsePermission(fmt.Sprintf("%s:%d", p.Scope, uint64(p.Access)+more)); err == nil {
			e.Fail("parse", "%s:%d became the permission %v", p.Scope, uint64(p.Access)+more, q)
		}
	}
	for _, bad := range []string{"", ":", "x", " ", "-1"} {
		text := p.Scope + ":" + bad
		if bad == "" {
			text = p.Scope
		}
		if q, err := auth.ParsePermission(text); err == nil {
			e.Fail("parse", "%q became the permission %v", text, q)
		}
	}
	q, err := auth.ParsePermission(fmt.Sprintf("%s:%d", p.Scope, p.Access))
	if err != nil || q != p || q.String() != fmt.Sprintf("%s:%d", p.Scope, p.Access) {
		e.Fail("parse", "the permission \"%s:%d\" was read as %v, error %v", p.Scope, p.Access, q, err)
	}
	return q
}

type roleSpec struct{ allow, deny []auth.Permission }

type principalSpec struct {
	name   string
	groups [][]roleSpec
	live   *livePrincipal
}

func (p *principalSpec) has(x auth.Permission) bool {
	if p.live != nil {
		return p.live.scopes[x.Scope]&x.Access == x.Access && p.live.scopes[x.Scope] != 0
	}
	for _, g := range p.groups {
		for _, r := range g {
			ok := false
			for _, a := range r.allow {
				ok = ok || implied(a.Scope, x.Scope) && a.Access&x.Access == x.Access
			}
			for _, d := range r.deny {
				// a denied access denies every permission that includes it
				if implied(d.Scope, x.Scope) && d.Access&x.Access != 0 {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (p *principalSpec) build() auth.SecurityPrincipal {
	if p.live != nil {
		return p.live
	}
	u := auth.User{Id: p.name, Name: "name of " + p.name}
	for i, g := range p.groups {
		grp := auth.Group{Name: fmt.Sprint("g", i)}
		for j, r := range g {
			grp.Roles = append(grp.Roles, auth.Role{Name: fmt.Sprint("r", j), AllowedPermissions: r.allow, DeniedPermissions: r.deny})
		}
		u.Groups = append(u.Groups, grp)
	}
	return &u
}

func genC16(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("errmw", r.Intn(3), "seed", r.Intn(1<<30), "users", 2+r.Intn(3))}
	if r.Intn(2) == 0 {
		var ops []Op
		for i := 0; i < 1+r.Intn(6); i++ {
			ops = append(ops, Op{K: "admin", P: P("ms", r.Intn(60), "perm", r.Intn(1000), "grant", r.Intn(2))})
		}
		c.Actors = append(c.Actors, ops)
	}
	if r.Intn(4) == 0 {
		// one principal, few permissions, which come and go
		n := c.I("users")
		perms := []int64{int64(r.Intn(1 << 30)), int64(r.Intn(1 << 30))}
		route := []int{0, 1, 2, 2, 3}[r.Intn(5)]
		var admin []Op
		for i := 0; i < 2+r.Intn(8); i++ {
			admin = append(admin, Op{K: "admin", P: P("ms", r.Intn(12), "perm", r.Intn(1000), "grant", r.Intn(2), "like", perms[r.Intn(2)], "access", r.Intn(3)/2*7)})
		}
		c.Actors = [][]Op{admin}
		for a := 0; a < 1+r.Intn(2); a++ {
			var ops []Op
			for i := 0; i < 3+r.Intn(6); i++ {
				ops = append(ops, Op{K: "req", P: P("user", n, "route", route, "perms", perms[r.Intn(4)/3], "n", 1, "pre", r.Intn(9), "hold", r.Intn(4), "look", r.Intn(2))})
			}
			c.Actors = append(c.Actors, ops)
		}
		return c
	}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(6); i++ {
			p := P("user", r.Intn(6), "route", r.Intn(10), "perms", r.Intn(1<<30), "n", r.Intn(4), "pre", r.Intn(4), "hold", r.Intn(4), "look", r.Intn(3))
			if r.Intn(5) == 0 {
				p["sfail"] = int64(1 + r.Intn(6))
			}
			if r.Intn(5) == 0 {
				p["n"] = int64(6 + r.Intn(30))
				p["odd"] = int64(r.Intn(36))
				p["route"] = []int64{2, 2, 3, 8, 9}[r.Intn(5)]
			}
			if r.Intn(7) == 0 {
				p["pfail"] = int64([]int{1, 2, 4, 5, 6}[r.Intn(5)])
			}
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func runC16(e *Env, c *Case) {
	app := newApp(e, nil)
	type rq struct {
		op    Op
		tag   string
		runs  int
		late  int
		seen  []string
		perms []auth.Permission
		vers  int
	}
	reqs := map[string]*rq{}
	rr := simrt.NewRng(uint64(c.C("seed")), 5)
	var users []*principalSpec
	for i := 0; i < c.I("users"); i++ {
		u := &principalSpec{name: fmt.Sprint("user", i)}
		for g := 0; g < 1+rr.Intn(3); g++ {
			var roles []roleSpec
			for k := rr.Intn(4); k > 0; k-- {
				var s roleSpec
				for n := 0; n < 1+rr.Intn(2); n++ {
					s.allow = append(s.allow, configured(e, auth.Permission{Scope: grantScopes[rr.Intn(len(grantScopes))], Access: anyAccess(int64(rr.Intn(56)))}, rr.Intn(2)))
				}
				if k := rr.Intn(6); k < 2 {
					if k == 0 {
						s.allow = nil // a role that only denies
					}
					s.deny = append(s.deny, configured(e, auth.Permission{Scope: grantScopes[rr.Intn(len(grantScopes))], Access: anyAccess(int64(rr.Intn(56)))}, rr.Intn(2)))
				}
				roles = append(roles, s)
			}
			u.groups = append(u.groups, roles)
		}
		users = append(users, u)
	}
	live := &livePrincipal{e: e, name: "live", scopes: map[string]auth.Access{}, slow: int64(rr.Intn(4))}
	for _, s := range permScopes {
		if rr.Intn(2) == 0 {
			live.scopes[s] = anyAccess(int64(rr.Intn(56)))
		}
	}
	users = append(users, &principalSpec{name: "live", live: live})
	var built []auth.SecurityPrincipal
	for _, u := range users {
		built = append(built, u.build())
	}
	// the user of a request: nil for the numbers beyond
	userOf := func(op Op) *principalSpec {
		if k := op.I("user"); k < len(users) {
			return users[k]
		}
		return nil
	}
	supErr := func(k int, tag string) (error, int, string) {
		switch k {
		case 1:
			return errors.New("supplier failure of " + tag), 500, "supplier failure of " + tag
		case 2:
			return gerrors.NewBadRequestWithMessage("bad credentials of " + tag), 400, "bad credentials of " + tag
		case 4:
			return fmt.Errorf("directory for %s: %w", tag, context.Canceled), 500, "directory for " + tag + ": context canceled"
		case 5:
			return fmt.Errorf("directory for %s: %w", tag, context.DeadlineExceeded), 500, "directory for " + tag + ": context deadline exceeded"
		case 6:
			return fmt.Errorf("directory for %s: %w", tag, io.EOF), 500, "directory for " + tag + ": EOF"
		}
		return gerrors.ErrWrongCredentials, 403, "wrong credentials"
	}
	sup := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc MC) (auth.SecurityPrincipal, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		pause(q.op.P["pre"])
		if k := q.op.I("sfail"); k > 0 {
			e.Fault("principal supplier fails")
			err, _, _ := supErr(k, q.tag)
			if q.op.I("look") == 1 {
				return built[0], err
			}
			return nil, err
		}
		if k := q.op.I("user"); k < len(users) {
			if u, ok := built[k].(*auth.User); ok && q.op.I("look") == 2 {
				cp := *u
				return &cp, nil
			}
			return built[k], nil
		}
		return nil, nil
	})
	dyn := func(ctx context.Context, mc MC) ([]auth.Permission, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		pause(q.op.P["hold"])
		if k := q.op.I("pfail"); k > 0 {
			e.Fault("permission supplier fails")
			err, _, _ := supErr(k, q.tag)
			return q.perms, err
		}
		return q.perms, nil
	}
	var fixed []auth.Permission
	for i := 0; i < 1+rr.Intn(3); i++ {
		fixed = append(fixed, configured(e, permAt(int64(rr.Intn(1000))), rr.Intn(2)))
	}
	var fixed2 []auth.Permission
	for i := 0; i < 1+rr.Intn(2); i++ {
		fixed2 = append(fixed2, configured(e, permAt(int64(rr.Intn(1000))), rr.Intn(2)))
	}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		q.runs++
		see := func() {
			s := "none"
			if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
				s = p.Identity()
				for _, u := range users {
					if u.name != s || u.live != nil {
						continue
					}
					for k := 0; k < 4; k++ {
						want := false
						for _, g := range u.groups {
							want = want || len(g) > k
						}
						if name := fmt.Sprint("r", k); p.HasRole(name) != want || p.HasRole("R"+name) {
							e.Fail("role", "request %s: HasRole(%q) of %s with the roles %v gave %v", q.tag, name, s, u.groups, !want)
						}
					}
				}
			}
			q.seen = append(q.seen, s)
		}
		see()
		for k := 0; k < q.op.I("look"); k++ {
			pause(q.op.P["hold"])
			see()
		}
		if q.op.I("look") == 2 {
			simrt.Go("background "+q.tag, func() { pause(20); see() })
		}
		return response.PlainTextHttpResponseOK("secret of " + mc.PathVar("id")), nil
	}
	var common []middleware.Middleware
	switch c.I("errmw") {
	case 1:
		common = append(common, middleware.ErrJsonResponse())
	case 2:
		common = append(common, middleware.ErrJsonResponse(), middleware.RequestDumper(func(string) { simrt.Yield() }), middleware.CompressResponse(1))
	}
	app.Mux.CommonMiddlewares(common...)
	type guard struct {
		all     bool
		dynamic bool
		perms   []auth.Permission
	}
	type route struct {
		supply bool
		guards []guard
	}
	routes := []route{
		{true, []guard{{true, false, fixed}}},
		{true, []guard{{false, false, fixed}}},
		{true, []guard{{true, true, nil}}},
		{true, []guard{{false, true, nil}}},
		{true, nil},
		{false, []guard{{true, false, fixed}}},
		{true, []guard{{false, false, nil}}},
		// several one after the other, each of which has to agree
		{true, []guard{{false, false, fixed}, {true, false, fixed2}}},
		{true, []guard{{true, false, fixed2}, {true, true, nil}}},
		{true, []guard{{false, true, nil}, {false, false, fixed2}, {true, false, fixed}}},
	}
	mwsOf := func(rt route) (mws []middleware.Middleware) {
		if rt.supply {
			mws = append(mws, sup)
		}
		for _, g := range rt.guards {
			switch {
			case g.dynamic:
				mws = append(mws, middleware.Authorize(dyn, g.all))
			case g.all:
				mws = append(mws, middleware.AuthorizeAll(g.perms...))
			default:
				mws = append(mws, middleware.AuthorizeAny(g.perms...))
			}
		}
		return mws
	}
	for i, rt := range routes {
		app.Mux.HandleGet(fmt.Sprintf("/r%d/{id}", i), h, mwsOf(rt)...)
	}
	var order []*rq
	clients, admins := splitActors(c, "admin")
	for _, ops := range admins {
		e.Actor("admin", func() {
			for _, op := range ops {
				pause(op.P["ms"])
				p := permAt(op.P["perm"])
				if op.P["like"] != 0 {
					lr := simrt.NewRng(uint64(op.P["like"]), 6)
					p = permAt(int64(lr.Intn(1000)))
				}
				p.Access |= auth.Access(op.I("access"))
				live.version++
				if op.I("grant") == 1 {
					live.scopes[p.Scope] |= p.Access
				} else {
					delete(live.scopes, p.Scope)
				}
				e.Fault("permission granted or revoked")
			}
		})
	}
	for ai, ops := range clients {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				q := &rq{op: op, tag: tag, vers: live.version}
				ri := op.I("route") % len(routes)
				rt := routes[ri]
				u := userOf(op)
				if !rt.supply {
					u = nil
				}
				pr := simrt.NewRng(uint64(op.P["perms"]), 6)
				for k := 0; k < op.I("n"); k++ {
					p := permAt(int64(pr.Intn(1000)))
					// of many, most are held
					for try := 0; op.I("n") > 4 && k != op.I("odd") && u != nil && !u.has(p) && try < 40; try++ {
						p = permAt(int64(pr.Intn(1000)))
					}
					q.perms = append(q.perms, p)
				}
				reqs[tag] = q
				order = append(order, q)
				// the model's decision
				var demanded []string
				status, text := 200, ""
				sfail, pfail := op.I("sfail"), op.I("pfail")
				if sfail > 0 && rt.supply {
					_, status, text = supErr(sfail, tag)
				}
				for _, g := range rt.guards {
					perms, word := g.perms, "any of"
					if g.dynamic {
						perms = q.perms
					}
					allowed := false
					if u != nil && g.all {
						word, allowed = "all of", true
						for _, p := range perms {
							allowed = allowed && u.has(p)
						}
					} else if u != nil {
						for _, p := range perms {
							allowed = allowed || u.has(p)
						}
					}
					demanded = append(demanded, fmt.Sprint(word, " ", perms))
					switch {
					case status != 200:
					case pfail > 0 && g.dynamic:
						_, status, text = supErr(pfail, tag)
					case !allowed:
						status, text = 401, "unauthorized request"
					}
				}
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, &ReqSpec{Method: "GET", Path: fmt.Sprintf("/r%d/%s", ri, tag), Header: hdr("X-Sim", tag)})
				logged := app.errsBy(me)[before:]
				e.Check()
				name := "none"
				if u != nil {
					name = u.name
				}
				e.Log("%s user %s route %d: status %d runs %d seen %v", tag, name, ri, x.Status, q.runs, q.seen)
				at := fmt.Sprintf("request %s of %s to route %d demanding %v", tag, name, ri, demanded)
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", at, x.PanicText)
					return
				}
				for _, s := range q.seen {
					if s != name {
						e.Fail("principal", "%s: the handler saw the principal %s", at, s)
						return
					}
				}
				if q.runs > 0 && (x.Status != 200 || string(x.Body) != "secret of "+tag) || q.runs == 0 && (x.Status == 200 || strings.Contains(string(x.Body), "secret")) {
					e.Fail("decision", "%s: the handler ran %d times and the answer is %d %q", at, q.runs, x.Status, trunc(string(x.Body)))
					return
				}
				if u != nil && u.live != nil && live.version != q.vers && sfail == 0 {
					// any of its guards may have decided before or after
					e.Probe("permissions changed meanwhile")
					continue
				}
				if status == 200 && q.runs != 1 || status != 200 && q.runs != 0 {
					e.Fail("decision", "%s: the handler ran %d times (status %d), expected status %d %s", at, q.runs, x.Status, status, text)
					return
				}
				if status == 200 {
					e.Probe("allowed")
					continue
				}
				e.Probe("denied")
				if c.I("errmw") == 0 {
					if x.Status != 500 || len(logged) != 1 || !strings.Contains(logged[0], text) {
						e.Fail("decision", "%s: status %d, logged %q, expected the error %q", at, x.Status, logged, text)
						return
					}
					continue
				}
				var m map[string]string
				if json.Unmarshal(x.Body, &m); x.Status != status || m["error"] != text {
					e.Fail("decision", "%s: answer %d %q instead of %d %q", at, x.Status, trunc(string(x.Body)), status, text)
					return
				}
			}
		})
	}
	if !e.MustFinish(100*hour, "stuck") {
		return
	}
	e.Drain(100 * hour)
	for _, q := range order {
		for _, s := range q.seen {
			if s != q.seen[0] {
				e.Fail("principal", "request %s saw the principals %v", q.tag, q.seen)
				return
			}
		}
	}
}

// --- C18

var dumpMethods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"}

func genC18(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("outer", r.Intn(16), "slow", r.Intn(4))}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(5); i++ {
			p := P("m", r.Intn(len(dumpMethods)), "seed", r.Intn(1<<30), "pre", r.Intn(4)*r.Intn(300), "hold", r.Intn(3), "kind", r.Intn(6), "form", r.Intn(3), "var", r.Intn(2), "tls", r.Intn(2))
			if r.Intn(4) == 0 {
				p["bad"] = int64(1 + r.Intn(2))
			}
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func runC18(e *Env, c *Case) {
	app := newApp(e, nil)
	type rq struct {
		op                     Op
		tag                    string
		resp                   Resp  // what the chain inside returned
		err                    error // and its error
		respHdr                map[string]string
		respCk                 []string
		status                 int
		outResp                Resp
		outErr                 error
		from, to, begin, until int64 // handler and request times
		outs                   int
		body, got              string // what was sent, and what the handler read
	}
	reqs := map[string]*rq{}
	type rec struct {
		by, val string
	}
	var recs []rec
	var kept []string
	logger := func(val string) {
		by := simrt.SelfName()
		pause(c.C("slow") * 3)
		recs = append(recs, rec{by, strings.Clone(val)})
		kept = append(kept, val) // the application may keep the string
		v := val
		pause(c.C("slow"))
		if v != recs[len(recs)-1].val && recs[len(recs)-1].by == by {
			e.Fail("record", "the record passed to the logger changed afterwards")
		}
	}
	ms := func() int64 { return simtime.Now().UnixMilli() }
	outer := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		if q.op.I("form") == 1 {
			mc.R.ParseForm()
		}
		q.begin = ms()
		resp, err := next(ctx, mc)
		q.until = ms()
		q.outs++
		q.outResp, q.outErr = resp, err
		if resp != nil {
			resp.Headers().Set("X-Outer", "1")
		}
		return resp, err
	})
	inner := mwFunc(func(ctx context.Context, mc MC, next handler.Handler) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		q.from = ms()
		resp, err := next(ctx, mc)
		if err == nil {
			resp.Headers().Set("X-Inner", q.tag)
			q.status = resp.StatusCode()
			q.respHdr = map[string]string{}
			for k, v := range resp.Headers() {
				q.respHdr[k] = v
			}
			for _, ck := range resp.Cookies() {
				q.respCk = append(q.respCk, ck.String())
			}
		}
		q.resp, q.err = resp, err
		q.to = ms()
		return resp, err
	})
	bits := c.I("outer")
	var mws []middleware.Middleware
	if bits&1 == 1 {
		mws = append(mws, middleware.PanicRecover())
	}
	if bits&2 == 2 {
		mws = append(mws, middleware.CompressResponse(1))
	}
	if bits&4 == 4 {
		mws = append(mws, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true}))
	}
	mws = append(mws, outer, middleware.RequestDumper(logger), inner)
	if bits&8 == 8 {
		app.Mux.CommonMiddlewares(mws...)
		mws = nil
	}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		switch q.op.I("form") {
		case 0:
			if mc.R.Body != nil {
				b, err := io.ReadAll(mc.R.Body)
				q.got = string(b)
				if err != nil {
					q.got += " " + err.Error()
				}
			}
		case 2:
			mc.R.ParseForm()
			q.got = mc.R.PostForm.Encode()
		}
		pause(q.op.P["pre"])
		switch q.op.I("bad") {
		case 1:
			e.Fault("handler fails")
			return nil, errors.New("simulated failure " + q.tag)
		case 2:
			e.Fault("handler panics")
			panic("simulated panic " + q.tag)
		}
		hs := response.NewHttpHeaders()
		hs.Set("X-Tag", q.tag)
		var ck response.HttpCookies
		for k := 0; k < q.op.I("kind")%3; k++ {
			if ck == nil {
				ck = response.NewEmptyHttpCookie()
			}
			ck.Add(&http.Cookie{Name: fmt.Sprintf("c%d%s", k, q.tag), Value: "v" + q.tag, Path: "/", HttpOnly: k == 0})
		}
		switch q.op.I("kind") {
		case 0:
			return response.PlainTextHttpResponseOK("ok " + q.tag), nil
		case 1, 2:
			return response.PlainTextResponseWithHeadersAndCookies(200+q.op.I("kind"), "ok "+q.tag, hs, ck), nil
		case 3:
			return response.JsonHttpResponse(200, map[string]string{"ok": q.tag}), nil
		case 4:
			return response.RedirectHttpResponse("/other/" + q.tag), nil
		}
		return response.StreamHttpResponseWithHeadersAndCookies(206, "text/plain", hs, ck, body("ok "+q.tag)), nil
	}
	for _, m := range dumpMethods {
		app.Mux.HandleRequest(m, "/d/{id}/**", h, mws...)
	}
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				q := &rq{op: op, tag: tag}
				reqs[tag] = q
				r := simrt.NewRng(uint64(op.P["seed"]), 8)
				spec := &ReqSpec{Method: dumpMethods[op.I("m")%len(dumpMethods)], Variant: op.I("var") % 2, TLS: op.I("tls") == 1, Header: hdr("X-Sim", tag, "Accept-Encoding", "gzip"),
					Remote: fmt.Sprintf("10.1.%d.%d:%d", r.Intn(255), r.Intn(255), 1024+r.Intn(60000)), Host: []string{"www.example.com", tag + ".example.com:8443"}[r.Intn(2)]}
				spec.Path = "/d/" + tag + "/" + []string{"x", "a b/ü", "quote\"<&>/" + tag}[r.Intn(3)]
				spec.Query = []string{"", "q=" + tag, "q=a%20b&q=2&r=%22%3C", "a=" + tag + "&b=é"}[r.Intn(4)]
				for k := 0; k < r.Intn(3); k++ {
					spec.Header.Add([]string{"X-Custom", "Accept", "Referer"}[r.Intn(3)], []string{"v" + tag, "\"quoted\" <html>", "ü"}[r.Intn(3)])
				}
				for k := 0; k < r.Intn(3); k++ {
					spec.Header.Add("Cookie", fmt.Sprintf("k%d=%s; z=%d", k, tag, r.Intn(100)))
				}
				if spec.Method == "POST" || spec.Method == "PUT" {
					if b := []string{"", "f=" + tag + "&g=1&g=2", "f=%3Cb%3E"}[r.Intn(3)]; b != "" {
						spec.Header.Set("Content-Type", "application/x-www-form-urlencoded")
						q.body = b
						spec.Body, spec.BodyLen = body(b), int64(len(b))
						if r.Intn(3) == 0 {
							spec.BodyLen = -1 // in chunks
						}
					}
				}
				var want map[string]any
				mk := func(x *http.Request, form url.Values) {
					var cks []string
					for _, ck := range x.Cookies() {
						cks = append(cks, ck.String())
					}
					want = map[string]any{"method": x.Method, "protocolVersion": x.Proto, "requestURI": x.RequestURI, "url": x.URL.String(), "remoteAddress": x.RemoteAddr,
						"transferEncoding": x.TransferEncoding, "contentLength": x.ContentLength, "host": x.Host, "isSecure": op.I("tls") == 1, "header": x.Header, "formFields": form}
					if len(cks) > 0 {
						want["cookies"] = cks
					}
				}
				before := len(recs)
				errsBefore := len(app.errsBy(me))
				x := e.Serve(app.Mux, spec)
				var mine []string
				for _, rc := range recs[before:] {
					if rc.by == me {
						mine = append(mine, rc.val)
					}
				}
				e.Check()
				if op.I("form") != 1 {
					sent := q.body
					if op.I("form") == 2 {
						v, _ := url.ParseQuery(sent)
						sent = v.Encode()
					}
					if q.got != sent {
						e.Fail("transparent", "request %s: the handler read the body %q instead of %q", tag, trunc(q.got), trunc(sent))
						return
					}
				}
				bad := op.I("bad")
				e.Log("%s %s %s: status %d, %d records, %d bytes", tag, spec.Method, spec.Path, x.Status, len(mine), len(x.Body))
				at := fmt.Sprintf("request %s (%s, bad %d)", tag, spec.Method, bad)
				if bad != 0 {
					if len(mine) > 0 {
						e.Fail("record", "%s: the handler did not succeed but %d records were logged", at, len(mine))
						return
					}
					if bad == 1 && (q.outs != 1 || q.outErr != q.err || q.err == nil) {
						e.Fail("transparent", "%s: the handler's error %v was passed on as %v", at, q.err, q.outErr)
						return
					}
					if bad == 2 && (x.Panic == nil && bits&1 == 0 || q.outs > 0) {
						e.Fail("transparent", "%s: the handler's panic did not pass", at)
						return
					}
					continue
				}
				if x.Panic != nil {
					e.Fail("transparent", "%s: ServeHTTP panicked: %s", at, x.PanicText)
					return
				}
				if len(mine) != 1 {
					e.Fail("record", "%s: %d records were logged instead of one", at, len(mine))
					return
				}
				if len(app.errsBy(me)) != errsBefore || q.outErr != nil {
					e.Fail("transparent", "%s: failed with %v", at, q.outErr)
					return
				}
				if q.outResp != q.resp {
					e.Fail("transparent", "%s: the response passed on is not the handler's", at)
					return
				}
				if x.Header.Get("X-Inner") != tag || x.Header.Get("X-Outer") != "1" || x.Status != q.status {
					e.Fail("transparent", "%s: the client got %d %v", at, x.Status, x.Header)
					return
				}
				b, derr := decodeBody(x)
				wantBody := "ok " + tag
				switch op.I("kind") {
				case 3:
					wantBody = `{"ok":"` + tag + `"}`
				case 4:
					wantBody = ""
				}
				if derr != nil || spec.Method != "HEAD" && op.I("kind") != 4 && string(b) != wantBody || spec.Method == "HEAD" && len(x.Body) > 0 {
					e.Fail("transparent", "%s: the body is %q (%v)", at, b, derr)
					return
				}
				var form url.Values
				if op.I("form") == 1 {
					form = x.Req.Form
				}
				mk(x.Req, form)
				var got struct {
					StartTimeMs, EndTimeMs *int64
					Request                map[string]any
					Response               struct {
						StatusCode *int
						Header     map[string]string
						Cookies    []string
					}
				}
				if err := json.Unmarshal([]byte(mine[0]), &got); err != nil {
					e.Fail("record", "%s: the record is not JSON: %v: %s", at, err, trunc(mine[0]))
					return
				}
				wb, _ := json.Marshal(want)
				var wm map[string]any
				json.Unmarshal(wb, &wm)
				for k, v := range wm {
					if !reflect.DeepEqual(got.Request[k], v) && !(isEmptyJSON(v) && isEmptyJSON(got.Request[k])) {
						e.Fail("record", "%s: the record's request.%s is %v instead of %v", at, k, got.Request[k], v)
						return
					}
				}
				if _, has := wm["cookies"]; !has && !isEmptyJSON(got.Request["cookies"]) {
					e.Fail("record", "%s: the record has cookies %v and the request none", at, got.Request["cookies"])
					return
				}
				if got.Response.StatusCode == nil || *got.Response.StatusCode != q.status {
					e.Fail("record", "%s: the record's status is not %d: %s", at, q.status, trunc(mine[0]))
					return
				}
				if !(len(got.Response.Header) == 0 && len(q.respHdr) == 0) && !reflect.DeepEqual(got.Response.Header, q.respHdr) {
					e.Fail("record", "%s: the record's response headers are %v instead of %v", at, got.Response.Header, q.respHdr)
					return
				}
				sort.Strings(got.Response.Cookies)
				sort.Strings(q.respCk)
				if strings.Join(got.Response.Cookies, "|") != strings.Join(q.respCk, "|") {
					e.Fail("record", "%s: the record's response cookies are %v instead of %v", at, got.Response.Cookies, q.respCk)
					return
				}
				if got.StartTimeMs == nil || got.EndTimeMs == nil || *got.StartTimeMs < q.begin || *got.StartTimeMs > q.from || *got.EndTimeMs < q.to || *got.EndTimeMs > q.until {
					e.Fail("record", "%s: the record's times are %s; the request was handled from %d to %d, the handler ran from %d to %d", at, trunc(mine[0]), q.begin, q.until, q.from, q.to)
					return
				}
			}
		})
	}
	if !e.MustFinish(100*hour, "stuck") {
		return
	}
	for i, v := range kept {
		if v != recs[i].val {
			e.Fail("record", "the record of %s changed after the logger had returned: %q became %q", recs[i].by, trunc(recs[i].val), trunc(v))
			return
		}
	}
}

func isEmptyJSON(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return false
}

// --- C19

var corsOrigins = []string{"", "https://a.example", "https://b.example", "http://a.example", "https://a.example:8443", "https://A.example", "null", "notanurl", "https://a.example%00", "http://site.example", "http://site.example:80", "http://site.example:8080", "https://site.example", "file://x", "https://%C3%A9.example", "https://a.example/%7Eu"}
var corsMethods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "OPTIONS"}
var corsHeaders = []string{"", "X-A", "x-a, X-B", "X-C", " X-B ,x-a", "X-A,,X-B", "X", "A", "X-A-B", "X-A, -b", "*"}
var corsTypes = []string{"text/plain", "application/x-www-form-urlencoded; charset=utf-8", "application/json", "Multipart/Form-Data"}

var corsExtra = [][2]string{{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Host", "a.example"}, {"Forwarded", "proto=https;host=a.example"}, {"Referer", "https://a.example/page"}, {"X-Forwarded-Ssl", "on"}, {"Sec-Fetch-Site", "same-origin"}, {"Front-End-Https", "on"}, {"X-Http-Method-Override", "GET"}, {"Upgrade-Insecure-Requests", "1"}, {"X-Requested-With", "XMLHttpRequest"}, {"Host", "a.example"}, {"Authorization", "Bearer x"}}

func genC19(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("seed", r.Intn(1<<30))}
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 2+r.Intn(6); i++ {
			p := P("app", r.Intn(2), "what", r.Intn(4), "m", r.Intn(len(corsMethods)), "origin", r.Intn(len(corsOrigins)), "acrm", r.Intn(7), "acrh", r.Intn(len(corsHeaders)), "ct", r.Intn(len(corsTypes)),
				"abs", r.Intn(8), "tls", r.Intn(2), "extra", r.Intn(40), "vary", r.Intn(7), "pre", r.Intn(3), "hold", r.Intn(3)*r.Intn(2), "fail", r.Intn(10)/9)
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func genCors(r *Rng) middleware.CorsConfig {
	c := middleware.CorsConfig{AnyOriginAllowed: r.Intn(3) == 0, SupportsCredentials: r.Intn(2) == 0, PreflightMaxAgeSeconds: []int{0, 1, 600}[r.Intn(3)]}
	pick := func(l []string) (out []string) {
		for _, s := range l {
			if r.Intn(2) == 0 {
				out = append(out, s)
			}
		}
		return
	}
	c.ExposedHeaders = pick([]string{"X-E1", "X-E2"})
	c.AllowedHttpMethods = pick([]string{"GET", "post", "PUT", "OPTIONS", "HEAD", "DELETE"})
	c.AllowedHttpHeaders = pick([]string{"X-A", "X-b"})
	c.AllowedOrigins = pick([]string{"https://a.example", "https://b.example", "null", "https://a.example:8443", "http://site.example:8080"})
	return c
}

func genSec(r *Rng) middleware.SecurityHeadersConfig {
	return middleware.SecurityHeadersConfig{
		STS:                         middleware.ShStrictTransportSecurityConfig{Enabled: r.Intn(3) > 0, MaxAgeSeconds: r.Intn(3) * 1000, IncludeSubDomains: r.Intn(2) == 0, Preload: r.Intn(2) == 0},
		ClickJacking:                middleware.ShClickJackingConfig{Enabled: r.Intn(3) > 0, XFrameOption: []middleware.XFrameOption{middleware.XFrameOptionDeny, middleware.XFrameOptionSameOrigin, middleware.XFrameOptionAllowFrom}[r.Intn(3)], XFrameOptionHeaderValue: []string{"DENY", "SAMEORIGIN", "ALLOW-FROM"}[r.Intn(3)], XFrameAllowFromUri: "https://frame.example"},
		BlockContentSniffingEnabled: r.Intn(2) == 0, XSSProtectionEnabled: r.Intn(2) == 0,
	}
}

// corsModel decides about one request: allowed says whether it is answered,
// want are the access-control headers of the answer.
func corsModel(cfg middleware.CorsConfig, method string, u *url.URL, h http.Header) (allowed bool, want map[string]string, vary []string) {
	inFold := func(l []string, s string) bool {
		for _, x := range l {
			if strings.EqualFold(x, s) {
				return true
			}
		}
		return false
	}
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	origin := h.Get("Origin")
	if _, has := h["Origin"]; has {
		valid := origin == "null" || strings.HasPrefix(origin, "file://")
		if p, err := url.ParseRequestURI(origin); err == nil && p.Scheme != "" && !strings.Contains(origin, "%") {
			valid = true
		}
		if !valid {
			return false, nil, nil
		}
		same := false
		if u.Scheme != "" && u.Host != "" {
			if o, err := url.Parse(origin); err == nil && o.Scheme == u.Scheme && o.Hostname() == u.Hostname() {
				port := func(u *url.URL) string {
					if u.Port() != "" {
						return u.Port()
					}
					return map[string]string{"http": "80", "https": "443"}[u.Scheme]
				}
				same = port(o) == port(u)
			}
		}
		if !same {
			if !cfg.AnyOriginAllowed && !in(cfg.AllowedOrigins, origin) {
				return false, nil, nil
			}
			_, pre := h["Access-Control-Request-Method"]
			if method == "OPTIONS" && pre {
				if m := h.Get("Access-Control-Request-Method"); m == "" || !inFold(cfg.AllowedHttpMethods, m) {
					return false, nil, nil
				}
				for _, x := range strings.Split(h.Get("Access-Control-Request-Headers"), ",") {
					if x = strings.TrimSpace(x); x != "" && !inFold(cfg.AllowedHttpHeaders, x) {
						return false, nil, nil
					}
				}
			} else if !inFold(cfg.AllowedHttpMethods, method) {
				return false, nil, nil
			}
		}
	}
	want = map[string]string{}
	if cfg.AnyOriginAllowed {
		want["Access-Control-Allow-Origin"] = "*"
	} else {
		want["Access-Control-Allow-Origin"] = origin
		vary = append(vary, "origin")
	}
	if cfg.SupportsCredentials {
		want["Access-Control-Allow-Credentials"] = "true"
	}
	if len(cfg.ExposedHeaders) > 0 {
		want["Access-Control-Expose-Headers"] = strings.Join(cfg.ExposedHeaders, ",")
	}
	if method == "OPTIONS" {
		vary = append(vary, "access-control-request-method", "access-control-request-headers")
		if cfg.PreflightMaxAgeSeconds > 0 {
			want["Access-Control-Max-Age"] = fmt.Sprint(cfg.PreflightMaxAgeSeconds)
		}
		if len(cfg.AllowedHttpMethods) > 0 {
			want["Access-Control-Allow-Methods"] = strings.Join(cfg.AllowedHttpMethods, ",")
		}
		if len(cfg.AllowedHttpHeaders) > 0 {
			want["Access-Control-Allow-Headers"] = strings.Join(cfg.AllowedHttpHeaders, ",")
		}
	}
	return true, want, vary
}

func secModel(cfg middleware.SecurityHeadersConfig, secure bool) map[string]string {
	want := map[string]string{}
	if cfg.STS.Enabled && secure {
		s := fmt.Sprintf("max-age=%d", cfg.STS.MaxAgeSeconds)
		if cfg.STS.IncludeSubDomains {
			s += ";includeSubDomains"
		}
		if cfg.STS.Preload {
			s += ";preload"
		}
		want["Strict-Transport-Security"] = s
	}
	if cfg.ClickJacking.Enabled {
		s := cfg.ClickJacking.XFrameOptionHeaderValue
		if cfg.ClickJacking.XFrameOption == middleware.XFrameOptionAllowFrom {
			s += " " + cfg.ClickJacking.XFrameAllowFromUri
		}
		want["X-Frame-Options"] = s
	}
	// sent by every response of the framework
	want["X-Content-Type-Options"] = "nosniff"
	if cfg.XSSProtectionEnabled {
		want["X-Xss-Protection"] = "1; mode=block"
	}
	return want
}

func runC19(e *Env, c *Case) {
	app := newApp(e, nil)
	rr := simrt.NewRng(uint64(c.C("seed")), 9)
	type rq struct {
		op  Op
		tag string
	}
	reqs := map[string]*rq{}
	h := func(ctx context.Context, mc MC) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		pause(q.op.P["pre"])
		if q.op.I("fail") == 1 {
			e.Fault("handler fails")
			return nil, gerrors.NewObjectNotFoundWithMessage("no " + q.tag)
		}
		hs := response.NewHttpHeaders()
		if v := []string{"", "Accept-Encoding", "*", "Accept, Accept-Language", "Origin", "X-Origin, X-Access-Control-Request-Method", "accept-encoding ,x-origin-2"}[q.op.I("vary")%7]; v != "" {
			hs.Set("Vary", v)
		}
		pause(q.op.P["hold"])
		return response.PlainTextHttpResponseWithHeaders(200, "ok "+q.tag, hs), nil
	}
	var cors []middleware.CorsConfig
	var sec []middleware.SecurityHeadersConfig
	for i := 0; i < 2; i++ {
		cc, sc := genCors(&rr), genSec(&rr)
		cors, sec = append(cors, cc), append(sec, sc)
		cm, sm := middleware.Cors(cc), middleware.SecurityHeaders(sc)
		for _, m := range corsMethods[:6] {
			app.Mux.HandleRequest(m, fmt.Sprintf("/cors%d/{id}", i), h, middleware.ErrJsonResponse(), cm)
			app.Mux.HandleRequest(m, fmt.Sprintf("/sec%d/{id}", i), h, middleware.ErrJsonResponse(), sm)
			app.Mux.HandleRequest(m, fmt.Sprintf("/both%d/{id}", i), h, middleware.ErrJsonResponse(), sm, cm)
			app.Mux.HandleRequest(m, fmt.Sprintf("/none%d/{id}", i), h, middleware.ErrJsonResponse())
		}
	}
	corsNames := []string{"Access-Control-Allow-Origin", "Access-Control-Allow-Credentials", "Access-Control-Expose-Headers", "Access-Control-Max-Age", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers"}
	secNames := []string{"Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection"}
	for ai, ops := range c.Actors {
		e.Actor(fmt.Sprintf("client%d", ai), func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				reqs[tag] = &rq{op, tag}
				k, what := op.I("app")%2, op.I("what")%4
				spec := &ReqSpec{Method: corsMethods[op.I("m")%len(corsMethods)], Header: hdr("X-Sim", tag), TLS: op.I("tls") == 1}
				spec.Path = fmt.Sprintf("/%s%d/%s", []string{"cors", "sec", "both", "none"}[what], k, tag)
				u := &url.URL{Path: spec.Path}
				switch op.I("abs") {
				case 1:
					u = &url.URL{Scheme: "http", Host: "site.example", Path: spec.Path}
				case 2:
					u = &url.URL{Scheme: "http", Host: "site.example:8080", Path: spec.Path}
				case 3:
					u = &url.URL{Scheme: "https", Host: "site.example", Path: spec.Path}
				}
				spec.RawURL = u
				target := u // what the request was sent to
				if u.Host == "" {
					spec.Host = []string{"www.example.com", "site.example", "site.example:8080", "site.example:80"}[op.I("abs")%4]
					target = &url.URL{Scheme: "http", Host: spec.Host}
					if spec.TLS {
						target.Scheme = "https"
					}
				}
				if o := corsOrigins[op.I("origin")%len(corsOrigins)]; o != "" || op.I("abs") == 7 {
					spec.Header.Set("Origin", o)
				}
				if spec.Method == "OPTIONS" && op.I("acrm") > 1 {
					spec.Header.Set("Access-Control-Request-Method", []string{"GET", "PUT", "delete", "PATCH", ""}[op.I("acrm")%5])
					if hh := corsHeaders[op.I("acrh")%len(corsHeaders)]; hh != "" {
						spec.Header.Set("Access-Control-Request-Headers", hh)
					}
				}
				if spec.Method == "POST" {
					spec.Header.Set("Content-Type", corsTypes[op.I("ct")%len(corsTypes)])
				}
				// what intermediaries and browsers add has no say
				if k := op.I("extra"); k < 2*len(corsExtra) {
					spec.Header.Set(corsExtra[k/2][0], corsExtra[k/2][1])
				}
				x := e.Serve(app.Mux, spec)
				e.Check()
				at := fmt.Sprintf("request %s %s %s to %s (origin %q, requested method %q, requested headers %q)", tag, spec.Method, u, target.Host, spec.Header.Get("Origin"), spec.Header.Get("Access-Control-Request-Method"), spec.Header.Get("Access-Control-Request-Headers"))
				e.Log("%s: %d %v", at, x.Status, x.Header)
				if x.Panic != nil {
					e.Fail("panic", "%s: ServeHTTP panicked: %v", at, x.PanicText)
					return
				}
				allowed, wantC, vary := true, map[string]string{}, []string(nil)
				if what == 0 || what == 2 {
					allowed, wantC, vary = corsModel(cors[k], spec.Method, target, spec.Header)
					at += fmt.Sprintf(", configuration %+v", cors[k])
				}
				wantS := map[string]string{"X-Content-Type-Options": "nosniff"}
				if what == 1 || what == 2 {
					wantS = secModel(sec[k], op.I("tls") == 1 || u.Scheme == "https")
				}
				status := 200
				if op.I("fail") == 1 {
					status = 404
				} else if !allowed {
					status = 403
				}
				if x.Status != status {
					e.Fail("decision", "%s: status %d instead of %d", at, x.Status, status)
					return
				}
				if status == 403 {
					e.Probe("denied")
				}
				if status != 200 {
					wantC, vary, wantS = nil, nil, map[string]string{"X-Content-Type-Options": "nosniff"}
					if strings.Contains(string(x.Body), "ok "+tag) {
						e.Fail("decision", "%s: the denied response's body was sent", at)
						return
					}
				} else if spec.Method != "HEAD" && string(x.Body) != "ok "+tag {
					e.Fail("decision", "%s: body %q", at, x.Body)
					return
				}
				for _, n := range corsNames {
					if x.Header.Get(n) != wantC[n] || len(x.Header[n]) > 1 {
						e.Fail("headers", "%s: %s is %q instead of %q", at, n, x.Header[n], wantC[n])
						return
					}
				}
				for _, n := range secNames {
					if x.Header.Get(n) != wantS[n] || len(x.Header[n]) > 1 {
						e.Fail("headers", "%s: %s is %q instead of %q", at, n, x.Header[n], wantS[n])
						return
					}
				}
				wantV := map[string]bool{}
				if status == 200 {
					for _, v := range append(vary, [][]string{nil, {"accept-encoding"}, {"*"}, {"accept", "accept-language"}, {"origin"}, {"x-origin", "x-access-control-request-method"}, {"accept-encoding", "x-origin-2"}}[op.I("vary")%7]...) {
						wantV[v] = true
					}
				}
				gotV := map[string]bool{}
				for _, v := range strings.Split(strings.Join(x.Header["Vary"], ","), ",") {
					if v = strings.ToLower(strings.TrimSpace(v)); v != "" {
						gotV[v] = true
					}
				}
				if wantV["*"] {
					if !gotV["*"] {
						e.Fail("headers", "%s: Vary is %q instead of *", at, x.Header["Vary"])
						return
					}
				} else if !reflect.DeepEqual(gotV, wantV) {
					e.Fail("headers", "%s: Vary is %q instead of %v", at, x.Header["Vary"], wantV)
					return
				}
			}
		})
	}
	e.MustFinish(100*hour, "stuck")
	_ = time.Now
}
