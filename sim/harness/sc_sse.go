package harness

import (
	"context"
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
)

// C10 order, framing and promptness of server-sent events, C11 termination.

func init() {
	noAdv := func(r *Rng, p *simrt.Policy) { p.AdvP = 0 }
	register(&Scenario{Prop: "C10", Near: true, Gen: genC10, Run: runC10, Pol: noAdv,
		Rule: "A case is 1-4 clients requesting event streams of 0-12 events (names, ids, retries, data with line breaks, gaps from 0 to an hour, buffered and unbuffered channels, custom headers, optionally compressed, HTTP/1 in some cases); the received bytes are parsed by a reference EventSource parser and compared with the events generated, each event before its successor is due."})
	register(&Scenario{Prop: "C11", Near: true, Gen: genC11, Run: runC11, Pol: noAdv,
		Rule: "A case is 1-4 clients whose event streams end, disconnect at a random instant or break at a random write while the generator is waiting, sending or done, for generators of 6 styles (selecting, sending blindly, closing late, noticing the end only after the next event); the handler must return, the generator's context must end and no goroutine may remain."})
}

var sseWords = []string{"", "a", "hello world", " lead", "tail ", ":colon", "data: x", "line1\nline2", "a\r\nb", "x\ry", "\n", "é世界", "{\"k\":\"v\\n\"}", "two\n\nbreaks", "end\n", "\r\n\r\n"}
var sseGaps = []int64{0, 0, 0, 1, 1, 100, 1000, 60000, 3600000}

func sseEvent(seed int64, tag string, i int) response.ServerSentEvent {
	r := simrt.NewRng(uint64(seed), uint64(i)+77)
	var ev response.ServerSentEvent
	if r.Intn(3) > 0 {
		ev.Name = []string{"message", "update", "é", "a:b"}[r.Intn(4)]
	}
	if r.Intn(2) == 0 {
		ev.Id = fmt.Sprintf("%s-%d", tag, i)
	}
	if r.Intn(4) == 0 {
		ev.Retry = r.Intn(5000) - 100
		if r.Intn(3) == 0 {
			ev.Retry = []int{1, 255, 256, 32768, 65536, 86400000, 1<<31 - 1, 1 << 33}[r.Intn(8)]
		}
	}
	n := r.Intn(4)
	for k := 0; k < n; k++ {
		ev.Data = append(ev.Data, sseWords[r.Intn(len(sseWords))])
	}
	if n > 0 && r.Intn(4) > 0 {
		ev.Data = append(ev.Data, fmt.Sprintf("%s event %d", tag, i))
	}
	if r.Intn(40) == 0 {
		for k := 10 + r.Intn(300); k > 0; k-- {
			ev.Data = append(ev.Data, fmt.Sprint("field ", k))
		}
	}
	if n > 0 && r.Intn(10) == 0 {
		ev.Data = append(ev.Data, strings.Repeat(tag+".", 600+r.Intn(1500)))
		if r.Intn(12) == 0 {
			// more than any buffer holds
			ev.Data = append(ev.Data, strings.Repeat(tag+"_", []int{17000, 40000, 300000}[r.Intn(3)]/len(tag)))
		}
	}
	return ev
}

func normLines(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	return strings.ReplaceAll(s, "\r", "\n")
}

// what a client makes of a stream
type sseMsg struct{ Name, Data, Id string }
type sseView struct {
	Msgs  []sseMsg
	Retry []string
	Id    string
}

func sseExpect(evs []response.ServerSentEvent) (v sseView) {
	for _, ev := range evs {
		if ev.Id != "" {
			v.Id = ev.Id
		}
		if ev.Retry > 0 {
			v.Retry = append(v.Retry, strconv.Itoa(ev.Retry))
		}
		if len(ev.Data) > 0 {
			name := ev.Name
			if name == "" {
				name = "message"
			}
			v.Msgs = append(v.Msgs, sseMsg{name, normLines(strings.Join(ev.Data, "\n")), v.Id})
		}
	}
	return
}

// sseParse is the event stream interpretation of the HTML standard.
func sseParse(b []byte) (v sseView) {
	s := normLines(strings.TrimPrefix(string(b), "\ufeff"))
	var data, typ string
	idBuf := ""
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return // an incomplete line, and with it an incomplete block, is discarded
		}
		line := s[:i]
		s = s[i+1:]
		if line == "" {
			v.Id = idBuf
			if data != "" {
				n := typ
				if n == "" {
					n = "message"
				}
				v.Msgs = append(v.Msgs, sseMsg{n, strings.TrimSuffix(data, "\n"), v.Id})
			}
			data, typ = "", ""
			continue
		}
		if line[0] == ':' {
			continue
		}
		f, val, _ := strings.Cut(line, ":")
		val = strings.TrimPrefix(val, " ")
		switch f {
		case "event":
			typ = val
		case "data":
			data += val + "\n"
		case "id":
			if !strings.Contains(val, "\x00") {
				idBuf = val
			}
		case "retry":
			if _, err := strconv.ParseUint(val, 10, 63); err == nil {
				v.Retry = append(v.Retry, val)
			}
		}
	}
}

func sseDiff(got, want sseView) string {
	for i := 0; i < len(got.Msgs) || i < len(want.Msgs); i++ {
		switch {
		case i >= len(got.Msgs):
			return fmt.Sprintf("event %d of %d is missing: %q", i, len(want.Msgs), trunc(fmt.Sprint(want.Msgs[i])))
		case i >= len(want.Msgs):
			return fmt.Sprintf("an event that was never sent: %q", trunc(fmt.Sprint(got.Msgs[i])))
		case got.Msgs[i] != want.Msgs[i]:
			return fmt.Sprintf("event %d is %q instead of %q", i, trunc(fmt.Sprint(got.Msgs[i])), trunc(fmt.Sprint(want.Msgs[i])))
		}
	}
	if fmt.Sprint(got.Retry) != fmt.Sprint(want.Retry) {
		return fmt.Sprintf("retry fields %v instead of %v", got.Retry, want.Retry)
	}
	if got.Id != want.Id {
		return fmt.Sprintf("last event id %q instead of %q", got.Id, want.Id)
	}
	return ""
}

func genC10(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("compress", r.Intn(2)*r.Intn(2), "sec", r.Intn(2))}
	for a := 0; a < 1+r.Intn(4); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(2); i++ {
			p := P("n", r.Intn(13), "ev", int64(r.Intn(1<<40)), "style", r.Intn(4), "var", r.Intn(4), "hdr", r.Intn(4), "last", r.Intn(3), "gaps", int64(r.Intn(1<<40)), "ae", r.Intn(5))
			if r.Intn(8) == 0 {
				p["h1"] = 1
			}
			if r.Intn(5) == 0 {
				p["stall"] = int64(1 + r.Intn(3))
			}
			if r.Intn(4) == 0 {
				p["rep"] = int64(1 + r.Intn(3))
			}
			if r.Intn(60) == 0 {
				p["n"] = []int64{40, 130, 300}[r.Intn(3)]
			}
			ops = append(ops, Op{K: "sse", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

type sseReq struct {
	tag     string
	op      Op
	spec    *ReqSpec
	rw      *RW
	evs     []response.ServerSentEvent
	last    string
	sent    int
	genRuns int
	ctx     context.Context
	enc     func() string
	checkUp bool
}

func (e *Env) sseGen(q *sseReq) response.EventGenerator {
	gr := simrt.NewRng(uint64(q.op.P["gaps"]), 5)
	return func(ctx context.Context, lastEventId string) <-chan response.ServerSentEvent {
		q.genRuns++
		q.ctx = ctx
		e.Check()
		if lastEventId != q.last {
			e.Fail("last-event-id", "request %s: the generator got last event id %q, the client sent %q", q.tag, lastEventId, q.last)
		}
		style := q.op.I("style")
		size := 0
		if style == 1 {
			size = len(q.evs) + 1
		}
		ch := make(chan response.ServerSentEvent, size)
		if style == 2 { // everything is there already
			ch = make(chan response.ServerSentEvent, len(q.evs)+1)
			for _, ev := range q.evs {
				ch <- ev
			}
			q.sent = len(q.evs)
			close(ch)
			return ch
		}
		simrt.Go("generator "+q.tag, func() {
			defer close(ch)
			simrt.Yield()
			for i, ev := range q.evs {
				gap := sseGaps[gr.Intn(len(sseGaps))]
				pause(gap)
				if gap > 0 && q.checkUp {
					e.Check()
					e.Probe("events due before their successor")
					b := decodePrefix(q.enc(), q.rw.Delivered.Bytes())
					if d := sseDiff(sseParse(b), sseExpect(q.evs[:i])); d != "" {
						e.Fail("held-back", "request %s: %d events were sent and %dms later the client has not what they say: %s", q.tag, i, gap, d)
						return
					}
				}
				if simrt.Select(false, simrt.SelRecv(ctx.Done()), simrt.SelSend(ch).With(ev)) == 0 {
					simrt.Yield()
					return
				}
				simrt.Yield()
				q.sent++
			}
		})
		return ch
	}
}

func runC10(e *Env, c *Case) {
	app := newApp(e, nil)
	if c.I("compress") == 1 {
		app.Mux.CommonMiddlewares(middleware.CompressResponse(1))
	}
	if c.I("sec") == 1 {
		app.Mux.CommonMiddlewares(middleware.SecurityHeaders(middleware.SecurityHeadersConfig{BlockContentSniffingEnabled: true}))
	}
	reqs := map[string]*sseReq{}
	app.Mux.HandleGet("/sse/{id}", func(ctx context.Context, mc MC) (Resp, error) {
		q := reqs[mc.R.Header.Get("X-Sim")]
		switch q.op.I("hdr") {
		case 1:
			h := response.NewHttpHeaders()
			h.Set("X-Own", q.tag)
			return response.SSEHttpResponseWithHeaders(e.sseGen(q), h), nil
		case 2:
			h := response.NewHttpHeaders()
			h.Set("X-Own", q.tag)
			return response.SSEHttpResponseWithHeadersAndCookies(e.sseGen(q), h, response.NewHttpCookie(&http.Cookie{Name: "own", Value: q.tag})), nil
		}
		return response.SSEHttpResponse(e.sseGen(q)), nil
	})
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				q := &sseReq{tag: tag, op: op}
				reqs[tag] = q
				for k := 0; k < op.I("n"); k++ {
					ev := sseEvent(op.P["ev"], tag, k)
					switch op.I("rep") {
					case 1: // the same event again and again
						ev = sseEvent(op.P["ev"], tag, k/3)
					case 2: // ids which come back
						ev.Id = fmt.Sprintf("%s-%d", tag, k%3)
					case 3: // ids of the client's last stream
						ev.Id = "last " + tag
					}
					q.evs = append(q.evs, ev)
				}
				if op.I("n") > 13 {
					e.W.MaxSteps += op.P["n"] * 5000
				}
				spec := &ReqSpec{Method: "GET", Path: "/sse/" + tag, Header: hdr("X-Sim", tag), Variant: varH2, Proto: 2, Stall: time.Duration(op.I("stall")) * 50 * time.Millisecond}
				if op.I("var") == 3 {
					spec.Variant = varPlain // no Flusher
				}
				if op.I("last") > 0 {
					q.last = fmt.Sprintf("last %s", tag)
					if op.I("last") == 2 {
						q.last += []string{strings.Repeat(":0123456789", 10), strings.Repeat("=", 1000), " é %2F+ \"\\\"", ", b; c=d"}[i%4]
					}
					spec.Header.Set("Last-Event-ID", q.last)
				}
				if ae := acceptEncodings[op.I("ae")%5]; ae != "" {
					spec.Header.Set("Accept-Encoding", ae)
				}
				if op.I("h1") == 1 {
					spec.Proto, spec.Variant = 1, varH1
				}
				q.checkUp = spec.Variant == varH2 && spec.Stall == 0
				spec.OnWriter = func(rw *RW) { q.rw = rw }
				q.enc = func() string { return q.rw.snap.Get("Content-Encoding") }
				before := len(app.errsBy(me))
				x := e.Serve(app.Mux, spec)
				logged := app.errsBy(me)[before:]
				e.Check()
				e.Log("%s: status %d, %d bytes, %d of %d events sent", tag, x.Status, len(x.Body), q.sent, len(q.evs))
				if x.Panic != nil {
					e.Fail("panic", "request %s: ServeHTTP panicked: %v", tag, x.PanicText)
					return
				}
				if spec.Proto == 1 {
					e.Probe("HTTP/1 request")
					b, err := decodeBody(x)
					if x.Status != 500 || err != nil || len(b) != 0 || q.genRuns != 0 || len(logged) != 1 {
						e.Fail("http1", "HTTP/1 request %s got status %d, %d bytes; the generator ran %d times; logged %q", tag, x.Status, len(x.Body), q.genRuns, logged)
						return
					}
					continue
				}
				if q.genRuns != 1 || x.Status != 200 || !x.Complete || len(logged) != 0 {
					e.Fail("stream", "request %s: status %d, complete %v; the generator ran %d times; logged %q", tag, x.Status, x.Complete, q.genRuns, logged)
					return
				}
				want := http.Header{"Content-Type": {"text/event-stream"}, "Cache-Control": {"no-cache"}}
				if op.I("hdr") == 1 || op.I("hdr") == 2 {
					want.Set("X-Own", tag)
				}
				if op.I("hdr") == 2 {
					want.Set("Set-Cookie", "own="+tag)
				}
				if d := hdrDiff(x.Header, want, "Content-Encoding", "Vary", "X-Content-Type-Options", "Connection", "Content-Length"); d != "" {
					e.Fail("headers", "request %s: %s", tag, d)
					return
				}
				b, err := decodeBody(x)
				if err != nil {
					e.Fail("stream", "request %s: the body cannot be decoded: %v", tag, err)
					return
				}
				if d := sseDiff(sseParse(b), sseExpect(q.evs)); d != "" {
					e.Fail("events", "request %s: %s", tag, d)
					return
				}
			}
		})
	}
	if e.MustFinish(1000*time.Hour, "stuck") {
		e.Drain(time.Hour)
	}
}

// --- C11

func genC11(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("compress", r.Intn(3)/2)}
	for a := 0; a < 1+r.Intn(4); a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(2); i++ {
			p := P("n", 1+r.Intn(8), "ev", int64(r.Intn(1<<40)), "style", []int{0, 1, 1, 1, 3, 3, 4, 4, 0, 2, 5, 5, 6}[r.Intn(13)], "var", r.Intn(4), "gaps", int64(r.Intn(1<<40)), "end", r.Intn(4), "buf", []int64{0, 1, 64}[r.Intn(3)])
			if p["style"] == 6 {
				p["n"], p["end"] = int64(150+r.Intn(250)), 1
			}
			switch p["end"] {
			case 1: // disconnect at an instant
				p["ms"] = sseGaps[r.Intn(len(sseGaps))] + int64(r.Intn(3))
				p["ys"] = int64(r.Intn(30))
				if p["style"] == 6 {
					p["ms"], p["ys"] = int64(r.Intn(2)), int64(r.Intn(300))
				}
			case 2, 3: // break at a write
				p["fault"] = int64(1 + r.Intn(3))
				p["at"] = int64(r.Intn(200)) - 1
				p["grace"] = int64(r.Intn(3))
			}
			if r.Intn(5) == 0 {
				p["stall"] = int64(1 + r.Intn(3))
			}
			ops = append(ops, Op{K: "sse", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

// sseGen11 makes generators of the styles seen in practice: 0 selects between
// sending and the end of the context; 1 the README's: looks at the context
// between blocking sends; 2 looks at the context before each blocking send and
// returns without closing the channel; 3 as 0 with a buffered channel; 4 waits
// for the end of the context after its last event; 5 notices the end of the
// context only after the next event; 6 has a long backlog ready and closes the
// channel behind it.
func (e *Env) sseGen11(q *sseReq) response.EventGenerator {
	gr := simrt.NewRng(uint64(q.op.P["gaps"]), 5)
	return func(ctx context.Context, lastEventId string) <-chan response.ServerSentEvent {
		q.genRuns++
		q.ctx = ctx
		style := q.op.I("style")
		size := 0
		if style == 3 {
			size = 2
		}
		if style == 6 {
			size = len(q.evs)
		}
		ch := make(chan response.ServerSentEvent, size)
		simrt.Go("generator "+q.tag, func() {
			if style != 2 {
				defer close(ch)
			}
			simrt.Yield()
			if style == 6 {
				for _, ev := range q.evs {
					ch <- ev
				}
				simrt.Yield()
				q.sent = len(q.evs)
				return
			}
			for _, ev := range q.evs {
				gap := time.Duration(sseGaps[gr.Intn(len(sseGaps))]) * time.Millisecond
				if style == 5 {
					simrt.Sleep(gap)
					ch <- ev
					simrt.Yield()
					q.sent++
					if ctx.Err() != nil {
						return
					}
					continue
				}
				t := time.NewTimer(gap)
				k := simrt.Select(false, simrt.SelRecv(ctx.Done()), simrt.SelRecv(t.C))
				simrt.Yield()
				t.Stop()
				if k == 0 {
					return
				}
				if style == 1 || style == 2 {
					ch <- ev
				} else if simrt.Select(false, simrt.SelRecv(ctx.Done()), simrt.SelSend(ch).With(ev)) == 0 {
					simrt.Yield()
					return
				}
				simrt.Yield()
				q.sent++
			}
			if style == 4 {
				simrt.Select(false, simrt.SelRecv(ctx.Done()))
				simrt.Yield()
			}
		})
		return ch
	}
}

func runC11(e *Env, c *Case) {
	app := newApp(e, nil)
	if c.I("compress") == 1 {
		app.Mux.CommonMiddlewares(middleware.CompressResponse(1))
	}
	reqs := map[string]*sseReq{}
	app.Mux.HandleGet("/sse/{id}", func(ctx context.Context, mc MC) (Resp, error) {
		return response.SSEHttpResponse(e.sseGen11(reqs[mc.R.Header.Get("X-Sim")])), nil
	})
	leaky := false
	for ai, ops := range c.Actors {
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				tag := tagOf(ai, i)
				q := &sseReq{tag: tag, op: op}
				reqs[tag] = q
				if op.I("style") == 2 {
					leaky = true
				}
				for k := 0; k < op.I("n"); k++ {
					q.evs = append(q.evs, sseEvent(op.P["ev"], tag, k))
				}
				over := false
				spec := &ReqSpec{Method: "GET", Path: "/sse/" + tag, Header: hdr("X-Sim", tag), Variant: varH2, Proto: 2, Stall: time.Duration(op.I("stall")) * 50 * time.Millisecond}
				if op.I("var") == 3 {
					spec.Variant = varPlain
				}
				if c.I("compress") == 1 {
					spec.Header.Set("Accept-Encoding", "gzip")
				}
				spec.Fault, spec.FaultAt, spec.Grace, spec.BufSize = op.I("fault")%4, op.P["at"], op.I("grace"), op.I("buf")
				if c.I("compress") == 1 && spec.Fault == faultShort {
					spec.Fault = faultReset // found while flushing, net/http ends the request's context
				}
				// A client which stays is gone after a week at the latest; generators
				// which never close their channel rely on that.
				spec.OnCancel = func(cancel context.CancelFunc) {
					ms, ys := int64(7*24*3600*1000), int64(0)
					if op.I("end") == 1 {
						ms, ys = op.P["ms"], op.P["ys"]
					}
					simrt.Go("network "+tag, func() {
						t := time.NewTimer(time.Duration(ms) * time.Millisecond)
						defer t.Stop()
						simrt.Select(false, simrt.SelRecv(t.C))
						for k := int64(0); k <= ys; k++ {
							simrt.Yield()
						}
						if over {
							return
						}
						e.Fault("client disconnect")
						e.Log("client of %s disconnects", tag)
						cancel()
					})
				}
				spec.OnWriter = func(rw *RW) {
					q.rw = rw
				}
				x := e.Serve(app.Mux, spec)
				over = true
				now := e.W.Now()
				e.Check()
				e.Log("%s: status %d, %d bytes, %d of %d events sent, %d write errors", tag, x.Status, len(x.Body), q.sent, len(q.evs), x.RW.WriteErrs)
				if x.Panic != nil {
					e.Fail("panic", "request %s: ServeHTTP panicked: %v", tag, x.PanicText)
					return
				}
				since, what := x.RW.CancelAt, "the client was gone"
				if t := x.RW.FirstErrAt; t >= 0 && (since < 0 || t < since) {
					since, what = t, "a write to the client failed"
				}
				if since >= 0 {
					e.Probe("stream cut")
					if lag := now - since; lag > 10*time.Second {
						e.Fail("late-return", "request %s (generator style %d): the handler returned %v after %s", tag, op.I("style"), lag, what)
						return
					}
				}
				if n := x.RW.TooLate; n > 100 {
					e.Fail("late-write", "request %s (generator style %d): %d writes after the client was gone", tag, op.I("style"), n)
					return
				}
				if q.genRuns > 0 && q.ctx.Err() == nil {
					e.Fail("context", "request %s: the handler returned and the context of its event generator goes on", tag)
					return
				}
				simrt.Go("late use "+tag, func() {
					simrt.Sleep(24 * time.Hour)
					if n := x.RW.LateUse; n > 0 {
						e.Fail("late-use", "request %s: the response was used %d times after the handler returned", tag, n)
					}
				})
			}
		})
	}
	if !e.MustFinish(10000*time.Hour, "stuck") {
		return
	}
	o := e.Drain(1000 * time.Hour)
	if e.Failed() {
		return
	}
	// one goroutine which works for ever may serve all streams, one per stream may
	// not
	shared := (o == simrt.StepCap || o == simrt.Endless) && !e.W.SameBackground()
	if live := e.W.LiveBackground(); len(live) > 0 && !leaky && !shared {
		e.Fail("leak", "goroutines remain after all streams ended: %s", strings.Join(live, ", "))
	}
}
