package harness

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifsim/simrt"
)

// C01 routing and path variables.

func init() {
	register(&Scenario{Prop: "C01", Near: true, Gen: genC01, Run: runC01,
		Rule: "A case is a random table of 2-10 routes (literals, variables, constrained variables, wildcards, ** anywhere) and 2-6 clients sending 1-6 requests each, made from the routes' patterns and mutated (extra, missing, doubled, upper-case, .., 15-25 segments, segments beyond 64 KB, other methods and ones that no route has); handlers read their variables at once, later, in Write, and in goroutines outliving the request; some panic or fail. A brute-force matcher says which routes may answer, and every request is repeated alone on a fresh application of its own; in a third of the cases the routes are siblings which overlap."})
}

type segKind int

const (
	skLit segKind = iota
	skVar
	skCon
	skStar
	skGlob
	skMulti
)

type segDef struct {
	pat  string
	kind segKind
	re   *regexp.Regexp
}

var segDefs = []segDef{
	{"a", skLit, nil}, {"b", skLit, nil}, {"users", skLit, nil}, {"a1", skLit, nil}, {"foo", skLit, nil},
	{"{%s}", skVar, nil}, {"{%s}", skVar, nil}, {"{%s}", skVar, nil},
	{"{%s:^[0-9]+$}", skCon, regexp.MustCompile("^[0-9]+$")}, {"{%s:^[a-c]+$}", skCon, regexp.MustCompile("^[a-c]+$")},
	{"*", skStar, nil},
	{"f*o", skGlob, regexp.MustCompile("^f.*o$")}, {"*1", skGlob, regexp.MustCompile("^.*1$")}, {"a?", skGlob, regexp.MustCompile("^a.$")}, {"x*y*z", skGlob, regexp.MustCompile("^x.*y.*z$")},
	{"fo*", skGlob, regexp.MustCompile("^fo.+$")}, {"*o", skGlob, regexp.MustCompile("^.*o$")}, {"?1", skGlob, regexp.MustCompile("^.1$")},
	{"{%s:^[a-c0-9]+$}", skCon, regexp.MustCompile("^[a-c0-9]+$")},
	{"*aab", skGlob, regexp.MustCompile("^.*aab$")}, {"a*ab*ba", skGlob, regexp.MustCompile("^a.*ab.*ba$")}, {"*abab*b", skGlob, regexp.MustCompile("^.*abab.*b$")},
	{"**", skMulti, nil}, {"**", skMulti, nil},
}

// sameShape tells whether two routes match the same requests for the same reason.
func (r *routeDef) sameShape(o *routeDef) bool {
	if r.method != o.method || len(r.segs) != len(o.segs) {
		return false
	}
	for i, x := range r.segs {
		if y := o.segs[i]; x.kind != y.kind || x.pat != y.pat {
			return false
		}
	}
	return true
}

var segRank = map[segKind]int{skLit: 1, skCon: 2, skVar: 3, skGlob: 4, skStar: 5, skMulti: 6}

type routeDef struct {
	id     int
	method string
	segs   []segDef
	vars   []string // "" for segments which capture nothing
	pat    string
}

var routeMethods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS"}

// otherMethods are what a request asks for instead of the method of its route
var otherMethods = []string{"", "GET", "POST", "DELETE", "OPTIONS", "HEAD", "HEAD", "PUT", "PATCH", "TRACE", "PROPFIND"}

func routeOf(op Op, id int) *routeDef {
	r := &routeDef{id: id, method: routeMethods[op.I("m")%len(routeMethods)]}
	n := op.I("n")
	last := skLit
	for i := 0; i < n; i++ {
		d := segDefs[op.I(fmt.Sprintf("s%d", i))%len(segDefs)]
		if d.kind == skMulti && last == skMulti {
			d = segDefs[0]
		}
		last = d.kind
		v := ""
		p := d.pat
		if d.kind == skVar || d.kind == skCon {
			v = fmt.Sprintf("v%d", i)
			p = fmt.Sprintf(d.pat, v)
		}
		r.segs = append(r.segs, d)
		r.vars = append(r.vars, v)
		r.pat += "/" + p
	}
	if n == 0 {
		r.pat = "/"
	}
	return r
}

// pathSegs is what the path's segments are; nothing matches a path which goes
// deeper than 19 of them.
func pathSegs(p string) (out []string, deep bool) {
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
			deep = deep || len(out) > 19
		}
	}
	return out, deep
}

// matches lists the ways the route can match: the number of segments each of
// its segments takes.
func (r *routeDef) matches(segs []string, fold bool) (ways [][]int) {
	if len(r.segs) == 0 {
		if len(segs) == 0 {
			return [][]int{{}}
		}
		return nil
	}
	var rec func(i, k int, w []int)
	rec = func(i, k int, w []int) {
		if len(ways) > 200 {
			return
		}
		if i == len(r.segs) {
			if k == len(segs) {
				ways = append(ways, append([]int(nil), w...))
			}
			return
		}
		d := r.segs[i]
		if d.kind == skMulti {
			lo := 0
			if i == len(r.segs)-1 {
				lo = 1
			}
			for n := lo; k+n <= len(segs); n++ {
				rec(i+1, k+n, append(w, n))
			}
			return
		}
		if k >= len(segs) {
			return
		}
		s := segs[k]
		ok := true
		switch d.kind {
		case skLit:
			ok = s == d.pat || fold && strings.EqualFold(s, d.pat)
		case skCon, skGlob:
			ok = d.re.MatchString(s)
			if fold && !ok {
				ok = d.re.MatchString(strings.ToLower(s))
			}
		}
		if ok {
			rec(i+1, k+1, append(w, 1))
		}
	}
	rec(0, 0, nil)
	return ways
}

// varsOf gives the variables' values of a way to match.
func (r *routeDef) varsOf(segs []string, way []int) string {
	var out []string
	k := 0
	for i, n := range way {
		if r.vars[i] != "" {
			out = append(out, r.vars[i]+"="+segs[k])
		}
		k += n
	}
	return strings.Join(out, "&")
}

// moreSpecific says whether a has to be preferred to b for a path both match:
// the first segments of different kind decide, a literal before a constrained
// variable before a variable before a * before a **. Where that is not decided
// the answer is false.
func moreSpecific(a, b *routeDef) bool {
	for i := 0; i < len(a.segs) && i < len(b.segs); i++ {
		x, y := a.segs[i], b.segs[i]
		if x.kind != y.kind {
			if (x.kind == skGlob) != (y.kind == skGlob) && x.kind != skLit && y.kind != skLit && x.kind != skMulti && y.kind != skMulti {
				return false
			}
			return segRank[x.kind] < segRank[y.kind]
		}
		if x.kind == skMulti || x.kind != skVar && x.pat != y.pat {
			return false
		}
	}
	return false
}

// commonSegs are values that several of the segment patterns match.
var commonSegs = []string{"fo", "foo", "fxo", "fo1", "a1", "f1", "ao", "abc", "ab", "b", "11", "7", "xyzo", "a", "users"}

// patText makes the concrete path of a request from a route.
func requestPath(r *Rng, rt *routeDef, tag string, op Op) string {
	var segs []string
	for i, d := range rt.segs {
		switch d.kind {
		case skLit:
			segs = append(segs, d.pat)
		case skVar, skStar:
			v := []string{tag + fmt.Sprint("v", i), "a", "b", "é-" + tag, "users", "a b", "100%", "%41" + tag, "a+b%2F", ";v=1"}[r.Intn(10)]
			if r.Intn(2) == 0 {
				v = tag + fmt.Sprint("w", i)
			}
			segs = append(segs, v)
		case skCon:
			if strings.Contains(d.pat, "0-9") {
				segs = append(segs, fmt.Sprint(r.Intn(100000)))
			} else {
				segs = append(segs, []string{"a", "bc", "cab", tag}[r.Intn(4)])
			}
		case skGlob:
			switch d.pat {
			case "f*o":
				segs = append(segs, []string{"fo", "foo", "fxo", "fxoxo", "fxox", "f" + tag + "o", "of", "f"}[r.Intn(8)])
			case "*1":
				segs = append(segs, []string{"a1", tag + "1", "11", "1x1", "a"}[r.Intn(5)])
			case "x*y*z":
				segs = append(segs, []string{"xyz", "xaybz", "xyyzz", "xyzy", "xzy", "xyxyzxz", "xyzyz"}[r.Intn(7)])
			case "*aab", "a*ab*ba", "*abab*b":
				// what matches may overlap with what nearly does
				s := ""
				for k := 1 + r.Intn(5); k >= 0; k-- {
					s += []string{"a", "b", "ab", "aab", "ba"}[r.Intn(5)]
				}
				switch r.Intn(3) {
				case 0:
					s += "aab"
				case 1:
					s = "a" + s + "ba"
				}
				segs = append(segs, s)
			default:
				segs = append(segs, []string{"ab", "aa", "a1", "abc"}[r.Intn(4)])
			}
		case skMulti:
			for k := 0; k < r.Intn(4); k++ {
				segs = append(segs, []string{"a", "b", tag, "1"}[r.Intn(4)])
			}
		}
	}
	if n := len(segs); n > 0 && op.I("common") == 1 {
		segs[n-1] = commonSegs[r.Intn(len(commonSegs))]
	}
	switch op.I("mut") {
	case 1:
		segs = append(segs, []string{"a", tag}[r.Intn(2)])
	case 2:
		if len(segs) > 0 {
			segs = segs[:len(segs)-1]
		}
	case 3:
		if len(segs) > 0 {
			i := r.Intn(len(segs))
			segs[i] = []string{"a", "b", tag, "foo", "1"}[r.Intn(5)]
		}
	case 4:
		i := r.Intn(len(segs) + 1)
		segs = append(segs[:i], append([]string{"up" + tag, ".."}, segs[i:]...)...)
	case 5:
		i := r.Intn(len(segs) + 1)
		segs = append(segs[:i], append([]string{""}, segs[i:]...)...)
	case 6:
		for i := range segs {
			segs[i] = strings.ToUpper(segs[i])
		}
	case 7:
		for k := len(segs); k < 15+r.Intn(11); k++ {
			segs = append(segs, []string{"a", "b", tag}[r.Intn(3)])
		}
	case 8:
		i := r.Intn(len(segs) + 1)
		segs = append(segs[:i], append([]string{strings.Repeat(tag+"-", 65536/(len(tag)+1)+r.Intn(20))}, segs[i:]...)...)
	case 9:
		segs = append(segs, "")
	}
	return "/" + strings.Join(segs, "/")
}

// encodedURL is what the server makes of a request line in which more of the
// path is encoded than has to be.
func encodedURL(enc int, p string) *url.URL {
	if enc == 0 {
		return nil
	}
	r := simrt.NewRng(uint64(enc), 3)
	var sb strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.'; {
		case c == '/', plain && r.Intn(4) > 0:
			sb.WriteByte(c)
		case r.Intn(2) == 0:
			fmt.Fprintf(&sb, "%%%02x", c)
		default:
			fmt.Fprintf(&sb, "%%%02X", c)
		}
	}
	u, err := url.ParseRequestURI(sb.String())
	if err != nil || u.Path != p {
		panic(fmt.Sprintf("%q became %v, %v", sb.String(), u, err))
	}
	return u
}

func genC01(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("fold", r.Intn(4)/3, "routes", 1)}
	var routes []Op
	greedy := r.Intn(3) == 0
	siblings := r.Intn(3) == 0
	for i := 0; i < 2+r.Intn(9); i++ {
		p := P("m", r.Intn(3+r.Intn(2)*4)*r.Intn(2)*r.Intn(2), "n", []int{0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5}[r.Intn(11)])
		for k := int64(0); k < p["n"]; k++ {
			s := r.Intn(len(segDefs) - 2)
			if r.Intn(8) == 0 && (greedy || k == p["n"]-1) {
				s = len(segDefs) - 1
			}
			if r.Intn(3) == 0 {
				s = r.Intn(2)
			}
			p[fmt.Sprintf("s%d", k)] = int64(s)
		}
		if siblings && i > 0 {
			// the first route with another last segment
			for k, v := range routes[0].P {
				p[k] = v
			}
			if p["n"] > 0 {
				p[fmt.Sprintf("s%d", p["n"]-1)] = int64(r.Intn(len(segDefs) - 1))
			}
		}
		routes = append(routes, Op{K: "route", P: p})
	}
	c.Actors = append(c.Actors, routes)
	for a := 0; a < 2+r.Intn(5); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(6); i++ {
			p := P("r", r.Intn(10), "seed", r.Intn(1<<30), "do", r.Intn(6), "hold", r.Intn(3))
			if siblings && r.Intn(3) > 0 {
				p["common"] = 1
			}
			if r.Intn(5) == 0 {
				p["enc"] = int64(1 + r.Intn(1<<30))
			}
			if r.Intn(2) == 0 {
				p["mut"] = int64(r.Intn(10))
				if p["mut"] == 8 && r.Intn(4) > 0 {
					p["mut"] = 7
				}
			}
			if r.Intn(10) == 0 {
				p["om"] = int64(1 + r.Intn(len(otherMethods)-1))
			}
			if r.Intn(8) == 0 {
				p["bad"] = int64(1 + r.Intn(2))
			}
			ops = append(ops, Op{K: "req", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

type routeReq struct {
	tag, path, method string
	op                Op
	hits              []int
	vars              []string // what the handler saw, whenever it looked
	late              bool
}

func (q *routeReq) see(rt *routeDef, mc *MC) {
	var out []string
	for _, v := range rt.vars {
		if v != "" {
			out = append(out, v+"="+mc.PathVar(v))
		}
	}
	if x := mc.PathVar("nosuch"); x != "" {
		out = append(out, "nosuch="+x)
	}
	q.vars = append(q.vars, strings.Join(out, "&"))
}

// varsResponse reads the path variables when it is written.
type varsResponse struct {
	response.HttpResponse
	q  *routeReq
	rt *routeDef
}

func (v *varsResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	v.q.see(v.rt, &mc)
	simrt.Yield()
	err := v.HttpResponse.Write(w, mc)
	v.q.see(v.rt, &mc)
	return err
}

// setup registers the routes; those the framework refuses (duplicates) are
// left out.
func setupRoutes(e *Env, app *App, routes []*routeDef, reqs map[string]*routeReq, load bool) (kept []*routeDef) {
	for _, rt := range routes {
		h := func(ctx context.Context, mc MC) (Resp, error) {
			q := reqs[mc.R.Header.Get("X-Sim")]
			q.hits = append(q.hits, rt.id)
			q.see(rt, &mc)
			if !load {
				return response.PlainTextHttpResponseOK(fmt.Sprint("route ", rt.id)), nil
			}
			switch q.op.I("bad") {
			case 1:
				e.Fault("handler panics")
				panic("simulated panic " + q.tag)
			case 2:
				e.Fault("handler fails")
				return nil, fmt.Errorf("simulated failure %s", q.tag)
			}
			switch q.op.I("do") {
			case 1:
				pause(q.op.P["hold"] * 5)
				q.see(rt, &mc)
			case 2:
				cl := mc.Clone()
				simrt.Go("background "+q.tag, func() {
					for i := 0; i < 3; i++ {
						pause(q.op.P["hold"] * 7)
						q.see(rt, &cl)
					}
				})
			case 3:
				return &varsResponse{response.PlainTextHttpResponseOK(fmt.Sprint("route ", rt.id)), q, rt}, nil
			case 4:
				pause(0)
				cl := mc.Clone()
				q.see(rt, &cl)
				pause(0)
				q.see(rt, &mc)
			}
			return response.PlainTextHttpResponseOK(fmt.Sprint("route ", rt.id)), nil
		}
		same := ""
		for _, o := range kept {
			if rt.sameShape(o) {
				same = o.pat
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil && same == "" {
					e.Fail("register", "registering %s %s panicked: %v", rt.method, rt.pat, r)
				}
			}()
			app.Mux.HandleRequest(rt.method, rt.pat, h)
			if same != "" {
				e.Fail("duplicate", "%s %s could be registered after %s, which matches the same: which of the two answers is left open", rt.method, rt.pat, same)
				return
			}
			kept = append(kept, rt)
		}()
	}
	return kept
}

func runC01(e *Env, c *Case) {
	var routes []*routeDef
	clients, tables := splitActors(c, "route")
	for _, t := range tables {
		for _, op := range t {
			routes = append(routes, routeOf(op, len(routes)))
		}
	}
	fold := c.I("fold") == 1
	app := newApp(e, &gofre.Config{CaseInsensitivePathMatch: fold})
	reqs := map[string]*routeReq{}
	kept := setupRoutes(e, app, routes, reqs, true)
	if len(kept) == 0 {
		return
	}
	reqs2 := map[string]*routeReq{}
	var order []*routeReq
	for ai, ops := range clients {
		for i, op := range ops {
			tag := tagOf(ai, i)
			rt := kept[op.I("r")%len(kept)]
			r := simrt.NewRng(uint64(op.P["seed"]), 3)
			q := &routeReq{tag: tag, op: op, method: rt.method}
			q.path = requestPath(&r, rt, tag, op)
			if om := op.I("om"); om > 0 {
				q.method = otherMethods[om%len(otherMethods)]
			}
			reqs[tag] = q
			order = append(order, q)
			e.W.MaxSteps += int64(len(q.path)) * 40
		}
	}
	for ai, ops := range clients {
		e.Actor(fmt.Sprintf("client%d", ai), func() {
			for i := range ops {
				q := reqs[tagOf(ai, i)]
				x := e.Serve(app.Mux, &ReqSpec{Method: q.method, Path: q.path, RawURL: encodedURL(q.op.I("enc"), q.path), Header: hdr("X-Sim", q.tag)})
				e.Check()
				e.Log("%s %s %s: status %d, routes %v, vars %.200q", q.tag, q.method, trunc(q.path), x.Status, q.hits, q.vars)
				e.checkRoute(kept, q, x, fold)
				if e.Failed() {
					return
				}
			}
		})
	}
	if !e.MustFinish(100*hour, "stuck") {
		return
	}
	e.Drain(100 * hour)
	if e.Failed() {
		return
	}
	// the goroutines which went on with copies
	for _, q := range order {
		for _, v := range q.vars {
			if v != q.vars[0] {
				e.Fail("path-vars", "request %s %s %s: its variables are %q and later %q", q.tag, q.method, trunc(q.path), trunc(q.vars[0]), trunc(v))
				return
			}
		}
	}
	e.Actor("alone", func() {
		for _, q := range order {
			q2 := &routeReq{tag: q.tag, op: q.op, method: q.method, path: q.path}
			reqs2[q.tag] = q2
			alone := newApp(e, &gofre.Config{CaseInsensitivePathMatch: fold})
			setupRoutes(e, alone, routes, reqs2, false)
			e.Serve(alone.Mux, &ReqSpec{Method: q.method, Path: q.path, Header: hdr("X-Sim", q.tag)})
			e.Check()
			if fmt.Sprint(q.hits) != fmt.Sprint(q2.hits) || len(q.vars) > 0 && q.vars[0] != q2.vars[0] {
				e.Fail("alone", "request %s %s %s: under load it ran routes %v with %.200q, alone %v with %.200q", q.tag, q.method, trunc(q.path), q.hits, q.vars, q2.hits, q2.vars)
				return
			}
		}
	})
	e.MustFinish(100*hour, "stuck")
}

func (e *Env) checkRoute(routes []*routeDef, q *routeReq, x *Exchange, fold bool) {
	segs, deep := pathSegs(q.path)
	var can []*routeDef
	if !deep {
		for _, rt := range routes {
			if rt.method == q.method && len(rt.matches(segs, fold)) > 0 {
				can = append(can, rt)
			}
		}
	}
	where := fmt.Sprintf("request %s %s %s", q.tag, q.method, trunc(q.path))
	bad := q.op.I("bad")
	if x.Panic != nil && (bad != 1 || len(q.hits) == 0) {
		e.Fail("panic", "%s: ServeHTTP panicked: %v", where, x.PanicText)
		return
	}
	if len(can) == 0 {
		e.Probe("no route")
		if len(q.hits) > 0 || x.Status != 404 {
			e.Fail("route", "%s matches no route and got status %d from routes %v", where, x.Status, q.hits)
		}
		return
	}
	if len(q.hits) != 1 {
		e.Fail("route", "%s matches the route %s and was handled by %d routes (status %d)", where, can[0].pat, len(q.hits), x.Status)
		return
	}
	var rt *routeDef
	for _, r := range can {
		if r.id == q.hits[0] {
			rt = r
		}
	}
	if rt == nil {
		e.Fail("route", "%s was handled by a route it does not match (%d); it matches %s", where, q.hits[0], can[0].pat)
		return
	}
	for _, r := range can {
		if moreSpecific(r, rt) {
			e.Fail("specific", "%s was handled by %s although %s is more specific", where, rt.pat, r.pat)
			return
		}
	}
	ok := false
	ways := rt.matches(segs, fold)
	for _, w := range ways {
		if rt.varsOf(segs, w) == q.vars[0] {
			ok = true
		}
	}
	if !ok {
		e.Fail("path-vars", "%s, route %s: the path variables are %q instead of %q", where, rt.pat, trunc(q.vars[0]), trunc(rt.varsOf(segs, ways[0])))
		return
	}
	if bad == 0 && (x.Status != 200 || string(x.Body) != fmt.Sprint("route ", rt.id) && q.method != "HEAD") {
		e.Fail("route", "%s: status %d, body %q", where, x.Status, trunc(string(x.Body)))
	}
}
