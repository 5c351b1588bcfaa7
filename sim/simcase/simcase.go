// Package simcase holds the data that determine a run: the generated case
// (configuration and the operations of every actor, faults included) and the
// recorded scheduling decisions; and the shrinker working on them.
package simcase

import (
	"encoding/json"
	"hash/fnv"
	"sort"
	"time"
)

// Op is one operation of an actor.
type Op struct {
	K string           `json:"k"`
	P map[string]int64 `json:"p,omitempty"`
	// M marks operations that must not be dropped by the shrinker
	M bool `json:"m,omitempty"`
}

// G returns a parameter (0 when absent).
func (o Op) G(k string) int64 { return o.P[k] }

// I returns a parameter as int.
func (o Op) I(k string) int { return int(o.P[k]) }

// Case is one generated test case.
type Case struct {
	Prop   string           `json:"prop"`
	Seed   uint64           `json:"seed"`
	Cfg    map[string]int64 `json:"cfg"`
	Actors [][]Op           `json:"actors"`
}

func (c *Case) C(k string) int64 { return c.Cfg[k] }
func (c *Case) I(k string) int   { return int(c.Cfg[k]) }

func (c *Case) Clone() *Case {
	b, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(b, &d)
	if d.Cfg == nil {
		d.Cfg = map[string]int64{}
	}
	return &d
}

func (c *Case) Hash() uint64 {
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Decision mirrors simrt.Decision.
type Decision struct {
	At   int64 `json:"at"`
	Pick int   `json:"pick"`
	Adv  int64 `json:"adv,omitempty"`
}

// Item is a case together with its schedule.
type Item struct {
	Case      *Case      `json:"case"`
	Scheduled bool       `json:"scheduled"` // use Decisions instead of the seeded scheduler
	Decisions []Decision `json:"decisions"`
}

func (it Item) clone() Item {
	return Item{Case: it.Case.Clone(), Scheduled: it.Scheduled, Decisions: append([]Decision(nil), it.Decisions...)}
}

// Shrink minimises the item while try keeps returning true. try returns the
// decisions recorded when re-executing.
func Shrink(it Item, try func(Item) (bool, []Decision), budget time.Duration, maxTries int) (Item, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	cur := it.clone()
	attempt := func(cand Item) bool {
		if tries >= maxTries || time.Now().After(deadline) {
			return false
		}
		tries++
		ok, decs := try(cand)
		if ok {
			if cand.Scheduled {
				cand.Decisions = decs
			}
			cur = cand
			return true
		}
		return false
	}
	out := func() bool { return tries >= maxTries || time.Now().After(deadline) }
	// try a candidate case first with the current decisions, then with no
	// decision at all, then under a fresh seeded schedule
	attemptCase := func(f func(c *Case) bool) bool {
		cand := cur.clone()
		if !f(cand.Case) {
			return false
		}
		if attempt(cand) {
			return true
		}
		if len(cand.Decisions) > 0 {
			c2 := cand.clone()
			c2.Decisions = nil
			if attempt(c2) {
				return true
			}
		}
		for k := uint64(0); k < 3; k++ {
			c3 := cand.clone()
			c3.Scheduled = false
			c3.Case.Seed = cand.Case.Seed + k*7919
			c3.Decisions = nil
			if tries >= maxTries || time.Now().After(deadline) {
				return false
			}
			tries++
			if ok, decs := try(c3); ok {
				c3.Scheduled = true
				c3.Decisions = decs
				cur = c3
				return true
			}
		}
		return false
	}
	for round := 0; round < 4 && !out(); round++ {
		changed := false
		// drop actors
		for i := len(cur.Case.Actors) - 1; i >= 0; i-- {
			keep := false
			for _, o := range cur.Case.Actors[i] {
				keep = keep || o.M
			}
			if keep || len(cur.Case.Actors) <= 1 {
				continue
			}
			if attemptCase(func(c *Case) bool {
				c.Actors = append(c.Actors[:i:i], c.Actors[i+1:]...)
				return true
			}) {
				changed = true
			}
		}
		// drop operations
		for i := range cur.Case.Actors {
			for size := len(cur.Case.Actors[i]) / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= len(cur.Case.Actors[i]); {
					if attemptCase(func(c *Case) bool {
						for _, o := range c.Actors[i][at : at+size] {
							if o.M {
								return false
							}
						}
						c.Actors[i] = append(c.Actors[i][:at:at], c.Actors[i][at+size:]...)
						return true
					}) {
						changed = true
					} else {
						at += size
					}
				}
			}
		}
		// shrink parameters
		for i := range cur.Case.Actors {
			for j := 0; j < len(cur.Case.Actors[i]); j++ {
				for _, k := range keys(cur.Case.Actors[i][j].P) {
					for _, nv := range smaller(cur.Case.Actors[i][j].P[k]) {
						if attemptCase(func(c *Case) bool { c.Actors[i][j].P[k] = nv; return true }) {
							changed = true
							break
						}
					}
				}
			}
		}
		for _, k := range keys(cur.Case.Cfg) {
			for _, nv := range smaller(cur.Case.Cfg[k]) {
				if attemptCase(func(c *Case) bool { c.Cfg[k] = nv; return true }) {
					changed = true
					break
				}
			}
		}
		// drop decisions
		if cur.Scheduled {
			for size := (len(cur.Decisions) + 1) / 2; size >= 1 && len(cur.Decisions) > 0; size /= 2 {
				for at := 0; at < len(cur.Decisions) && !out(); {
					cand := cur.clone()
					end := at + size
					if end > len(cand.Decisions) {
						end = len(cand.Decisions)
					}
					cand.Decisions = append(cand.Decisions[:at:at], cand.Decisions[end:]...)
					before := len(cur.Decisions)
					if attempt(cand) && len(cur.Decisions) < before {
						changed = true
					} else {
						at += size
					}
				}
			}
			for i := 0; i < len(cur.Decisions) && !out(); i++ {
				if cur.Decisions[i].Adv == 0 {
					continue
				}
				cand := cur.clone()
				cand.Decisions[i].Adv = 0
				if attempt(cand) {
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return cur, tries
}

func keys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func smaller(v int64) []int64 {
	if v == 0 {
		return nil
	}
	out := []int64{0}
	if v > 1 {
		out = append(out, 1)
	}
	if v > 3 {
		out = append(out, v/2)
	}
	if v > 2 {
		out = append(out, v-1)
	}
	return out
}
