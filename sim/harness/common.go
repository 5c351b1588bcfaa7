package harness

import (
	"context"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifsim/simrt"
)

type (
	handlerFunc = handler.Handler

	MC   = path.MatchingContext
	Resp = response.HttpResponse
)

func P(kv ...any) map[string]int64 {
	m := map[string]int64{}
	for i := 0; i+1 < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case int:
			m[kv[i].(string)] = int64(v)
		case int64:
			m[kv[i].(string)] = v
		}
	}
	return m
}

// App is a gofre application under simulation.
type App struct {
	e    *Env
	Mux  *gofre.MuxHandler
	Errs []string // what reached ErrLogFunc
	By   []string // and from which task
}

func newApp(e *Env, cfg *gofre.Config) *App {
	a := &App{e: e}
	if cfg == nil {
		cfg = &gofre.Config{}
	}
	cfg.ErrLogFunc = func(err error) {
		simrt.Yield()
		a.By = append(a.By, simrt.SelfName())
		if err == nil {
			a.Errs = append(a.Errs, "<nil>")
			return
		}
		a.Errs = append(a.Errs, err.Error())
	}
	m, err := gofre.NewMuxHandler(cfg)
	if err != nil {
		e.Bug("NewMuxHandler: %v", err)
		return a
	}
	a.Mux = m
	return a
}

// errsBy returns the errors logged by a task.
func (a *App) errsBy(task string) (l []string) {
	for i, t := range a.By {
		if t == task {
			l = append(l, a.Errs[i])
		}
	}
	return l
}

// countErrs counts logged errors mentioning s.
func (a *App) countErrs(s string) int {
	n := 0
	for _, x := range a.Errs {
		if strings.Contains(x, s) {
			n++
		}
	}
	return n
}

func tagOf(actor, i int) string { return fmt.Sprintf("t%dq%d", actor, i) }

// pause spends simulated time or only yields.
func pause(ms int64) {
	if ms <= 0 {
		simrt.Yield()
		return
	}
	simrt.Sleep(time.Duration(ms) * time.Millisecond)
}

// mwFunc makes a middleware from a function around next.
func mwFunc(f func(ctx context.Context, mc MC, next handler.Handler) (Resp, error)) middleware.Middleware {
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc MC) (Resp, error) { return f(ctx, mc, next) }
	}
}

// wallJumps is a background actor stepping the wall clock.
func (e *Env) wallJumps(ops []Op) {
	e.Actor("ntp", func() {
		for _, op := range ops {
			pause(op.P["ms"])
			e.W.WallShift += op.P["shift"] * int64(time.Second)
			e.Fault("wall clock step")
			e.Log("wall clock stepped by %ds", op.P["shift"])
		}
	})
}

func genWall(r *Rng) []Op {
	var ops []Op
	for i := 0; i < 1+r.Intn(3); i++ {
		s := int64(r.Intn(20000)) - 10000
		ops = append(ops, Op{K: "jump", P: P("ms", r.Intn(5000), "shift", s)})
	}
	return ops
}

// splitActors separates the actors whose first op has kind k.
func splitActors(c *Case, k string) (rest [][]Op, found [][]Op) {
	for _, a := range c.Actors {
		if len(a) > 0 && a[0].K == k {
			found = append(found, a)
		} else {
			rest = append(rest, a)
		}
	}
	return
}

func body(s string) io.Reader { return strings.NewReader(s) }
