package simrt

import "sync/atomic"

type poolEntry struct {
	val  any
	hb   atomic.Uint32 // Put stores, Get loads: the only ordering the detector sees
	next *poolEntry
}

// PoolList is the storage of a simulated sync.Pool. It is only touched by the
// token holder.
type PoolList struct {
	epoch uint64
	head  *poolEntry
	n     int
	other *PoolList // the pools used in this run
}

// adopt empties a pool that an earlier run has used.
func (p *PoolList) adopt(e uint64) {
	p.epoch, p.head, p.n, p.other = e, nil, 0, nil
	if w := world; w != nil {
		p.other, w.pools = w.pools, p
	}
}

// ForgetPools empties all pools, as two garbage collections do. Nobody may be
// running.
func (w *World) ForgetPools() {
	for p := w.pools; p != nil; p = p.other {
		p.head, p.n = nil, 0
	}
}

// ForgetDone forgets the tasks which have ended. Nobody may be running.
func (w *World) ForgetDone() {
	var last *Task
	pp := &w.head
	for *pp != nil {
		if t := *pp; t.state.Load() == stDone {
			*pp = t.next
		} else {
			last = t
			pp = &t.next
		}
	}
	w.tail = last
	w.cur = nil
}

var poolStats struct{ gets, hits int64 }

// Get returns an item, or false when the pool pretends to be empty.
func (p *PoolList) Get() (any, bool) {
	if e := Epoch(); p.epoch != e {
		p.adopt(e)
	}
	if p.n == 0 {
		return nil, false
	}
	at := 0
	switch c := Choice(StreamPool, 16); {
	case c == 0:
		return nil, false
	case c < 5:
		at = Choice(StreamPool, p.n)
	}
	pp := &p.head
	for i := 0; i < at; i++ {
		pp = &(*pp).next
	}
	e := *pp
	*pp = e.next
	p.n--
	e.hb.Load()
	raceAcquire(e)
	v := e.val
	return v, true
}

// Put stores an item.
func (p *PoolList) Put(x any) {
	if e := Epoch(); p.epoch != e {
		p.adopt(e)
	}
	if p.epoch != 0 && p.n > 64 {
		return
	}
	e := &poolEntry{val: x, next: p.head}
	e.hb.Store(1)
	raceRelease(e)
	p.head = e
	p.n++
}

// CountPending and Pending keep a counter without creating ordering.
func CountPending(c *atomic.Int32, d int32) {
	raceDisable()
	c.Add(d)
	raceEnable()
}

func Pending(c *atomic.Int32) int32 {
	raceDisable()
	defer raceEnable()
	return c.Load()
}
