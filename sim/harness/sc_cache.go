package harness

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/ixtendio/gofre/cache"
)

// C14: cache.InMemory is an atomic expiring set.

type cacheIn struct {
	op  int // 0 add 1 remove 2 contains
	key int
	d   int64
	c   int64 // simulated time of the call and of the return
	r   int64
}

type cacheState struct {
	present bool
	c, r, d int64
}

var cacheModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		var ks []int
		for _, o := range h {
			k := o.Input.(cacheIn).key
			if _, ok := m[k]; !ok {
				ks = append(ks, k)
			}
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range ks {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() any { return cacheState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i := st.(cacheState), in.(cacheIn)
		switch i.op {
		case 0:
			return true, cacheState{true, i.c, i.r, i.d}
		case 1:
			return true, cacheState{}
		}
		if out.(bool) {
			return s.present && i.c-s.r < s.d, s
		}
		return !s.present || i.r-s.c >= s.d, s
	},
	Equal: func(a, b any) bool { return a.(cacheState) == b.(cacheState) },
}

func init() {
	register(&Scenario{
		Prop: "C14",
		Rule: "A case is 2-6 tasks doing 3-9 Add/Remove/Contains calls each on 1-3 keys with lifetimes from 0 to minutes (some of centuries) and pauses around the expiry instants, with wall-clock steps in half of the cases and floods of other keys in some; the recorded history is checked for linearizability (porcupine) against a sequential expiring set in elapsed time.",
		Gen: func(r *Rng, thorough bool) *Case {
			c := &Case{Cfg: P("keys", 1+r.Intn(3))}
			c.Cfg["names"] = int64(r.Intn(6))
			n := 2 + r.Intn(5)
			ds := []int64{0, 1, 5, 50, 1000, 60000, 3600000, 86400000 * 400, 86400000 * 36500}
			ps := ds[:7]
			for a := 0; a < n; a++ {
				var ops []Op
				for i := 0; i < 3+r.Intn(7); i++ {
					o := Op{P: P("key", r.Intn(3))}
					switch k := r.Intn(10); {
					case k < 3:
						o.K = "add"
						o.P["d"] = ds[r.Intn(len(ds))]
						switch r.Intn(12) {
						case 0, 1, 2:
							o.P["d"] = int64(r.Intn(100)) - 10
						case 3: // the longest lifetimes there are
							o.P["d"] = math.MaxInt64/1000000 - int64(r.Intn(2))
						}
					case k < 5:
						o.K = "remove"
					case k < 8:
						o.K = "contains"
					default:
						o.K = "sleep"
						o.P["d"] = ps[r.Intn(len(ps))] + int64(r.Intn(3)) - 1
					}
					if r.Intn(800) == 0 {
						sizes := []int64{20, 70, 300, 1100}
						if thorough {
							sizes = append(sizes, 5000, 70000)
						}
						o = Op{K: "flood", P: P("n", sizes[r.Intn(len(sizes))])}
					}
					ops = append(ops, o)
				}
				c.Actors = append(c.Actors, ops)
			}
			if r.Intn(2) == 0 {
				c.Actors = append(c.Actors, genWall(r))
			}
			return c
		},
		Run: runCache,
	})
}

func runCache(e *Env, c *Case) {
	mem := cache.NewInMemory()
	var iface cache.Cache = mem
	nk := max(1, c.I("keys"))
	var hist []porcupine.Operation
	long := strings.Repeat("k", 300)
	flood := 0
	do := func(actor int, op int, key int, d int64) {
		in := cacheIn{op: op, key: key, d: d * int64(time.Millisecond)}
		in.c = int64(e.W.Now())
		call := e.Seq()
		name := fmt.Sprintf("key-%d", key)
		if key < 3 {
			name = [][]string{{"key-0", "key-1", "key-2"}, {"", " ", "\x00"}, {"Key", "key", "KEY"}, {long, long + "a", long[1:]}, {"\u00e9t\u00e9", "e\u0301te\u0301", "\u65e5\u672c\xff"}, {"a:b", "a\nb", "a%3Ab"}}[c.I("names")%6][key]
		}
		var out bool
		switch op {
		case 0:
			if err := iface.Add(name, time.Duration(in.d)); err != nil {
				e.Fail("cache-error", "Add(%s) failed: %v", name, err)
			}
		case 1:
			iface.Remove(name)
		case 2:
			out = iface.Contains(name)
		}
		in.r = int64(e.W.Now())
		hist = append(hist, porcupine.Operation{ClientId: actor, Input: in, Call: call, Output: out, Return: e.Seq()})
		e.Log("%s(%s,%dms)=%v at %v..%v", []string{"Add", "Remove", "Contains"}[op], name, d, out, time.Duration(in.c), time.Duration(in.r))
	}
	rest, walls := splitActors(c, "jump")
	for _, w := range walls {
		e.wallJumps(w)
	}
	for ai, ops := range rest {
		e.Actor(fmt.Sprintf("user%d", ai), func() {
			for _, op := range ops {
				switch op.K {
				case "add":
					do(ai, 0, op.I("key")%nk, op.P["d"])
				case "remove":
					do(ai, 1, op.I("key")%nk, 0)
				case "contains":
					do(ai, 2, op.I("key")%nk, 0)
				case "sleep":
					pause(op.P["d"])
				case "flood":
					// many other keys, which are all to be found
					e.Probe("many keys")
					e.W.MaxSteps += op.P["n"] * 100
					lo := 100 + flood
					flood += op.I("n")
					for k := lo; k < lo+op.I("n"); k++ {
						do(ai, 0, k, 86400000*30)
					}
					for k := lo; k < lo+op.I("n"); k++ {
						do(ai, 2, k, 0)
					}
				}
			}
		})
	}
	if !e.MustFinish(100*time.Hour, "stuck") {
		return
	}
	e.Check()
	if !porcupine.CheckOperations(cacheModel, hist) {
		e.Fail("not-linearizable", "the results of Add/Remove/Contains fit no sequential order of an expiring set: %s", describeCache(hist))
	}
}

func describeCache(h []porcupine.Operation) string {
	s := ""
	for _, o := range h {
		i := o.Input.(cacheIn)
		s += fmt.Sprintf("[#%d..%d task %d %s key-%d", o.Call, o.Return, o.ClientId, []string{"Add", "Remove", "Contains"}[i.op], i.key)
		if i.op == 0 {
			s += fmt.Sprintf(" for %v", time.Duration(i.d))
		}
		s += fmt.Sprintf(" at %v", time.Duration(i.c))
		if i.r != i.c {
			s += fmt.Sprintf("..%v", time.Duration(i.r))
		}
		if i.op == 2 {
			s += fmt.Sprintf(" = %v", o.Output)
		}
		s += "] "
	}
	return s
}
