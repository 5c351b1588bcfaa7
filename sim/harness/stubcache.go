package harness

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"verifsim/simrt"
)

// distCache is a stub of a distributed cache: every operation takes simulated
// time (request, effect, reply) and can fail the way a remote store does.
type distCache struct {
	e       *Env
	lat     time.Duration
	m       map[string]time.Duration // expiry in elapsed time
	outage  map[string]bool          // by task: Contains answers false, Add fails
	addFail map[string]int           // by task: 1 fails without effect, 2 fails after taking effect
	adds    map[string]time.Duration // ttl every key was added with
	calls   int
}

func newDistCache(e *Env, lat time.Duration) *distCache {
	return &distCache{e: e, lat: lat, m: map[string]time.Duration{}, outage: map[string]bool{}, addFail: map[string]int{}, adds: map[string]time.Duration{}}
}

// cacheErrs are the errors of a distributed cache.
var cacheErrs = []error{
	errors.New("cache unreachable"),
	context.DeadlineExceeded,
	context.Canceled,
	io.EOF,
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)},
	errors.New("OOM command not allowed when used memory > 'maxmemory'."),
}

func (c *distCache) hop() {
	c.calls++
	if c.lat > 0 {
		simrt.Sleep(c.lat)
	} else {
		simrt.Yield()
	}
}

func (c *distCache) Add(key string, d time.Duration) error {
	c.hop()
	t := simrt.SelfName()
	if c.outage[t] || c.addFail[t] == 1 {
		c.e.Fault("cache write fails")
		return errAt(cacheErrs, int64(c.calls))
	}
	c.m[key] = c.e.W.Now() + d
	c.adds[key] = d
	c.hop()
	if c.addFail[t] == 2 {
		c.e.Fault("cache write fails after taking effect")
		return errAt(cacheErrs, int64(c.calls))
	}
	return nil
}

func (c *distCache) Remove(key string) {
	c.hop()
	delete(c.m, key)
	c.hop()
}

func (c *distCache) Contains(key string) bool {
	c.hop()
	if c.outage[simrt.SelfName()] {
		c.e.Fault("cache lookup fails")
		return false
	}
	exp, ok := c.m[key]
	r := ok && c.e.W.Now() < exp
	c.hop()
	return r
}
