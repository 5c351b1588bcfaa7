package simrt

import (
	"math"
	"time"
)

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed, stream uint64) Rng {
	r := Rng{seed*0x9E3779B97F4A7C15 ^ stream*0xBF58476D1CE4E5B9}
	r.Next()
	r.Next()
	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Geometric returns the number of trials up to and including the first success.
func (r *Rng) Geometric(p float64) int64 {
	if p >= 1 {
		return 1
	}
	u := r.Float()
	return 1 + int64(math.Log1p(-u)/math.Log1p(-p))
}

// Duration is log-uniform in [1µs, max].
func (r *Rng) Duration(max time.Duration) time.Duration {
	lo, hi := math.Log(float64(time.Microsecond)), math.Log(float64(max))
	return time.Duration(math.Exp(lo + (hi-lo)*r.Float()))
}

// Choice draws from [0,n) on one of the world's streams.
//
//go:noinline
func Choice(stream, n int) int {
	w := world
	if w == nil {
		return 0
	}
	return w.streams[stream].Intn(n)
}

// Draw returns 64 bits of a stream.
//
//go:noinline
func Draw(stream int) (uint64, bool) {
	w := world
	if w == nil {
		return 0, false
	}
	return w.streams[stream].Next(), true
}

// Restart lets a stream begin again, as an unseeded generator does when the
// process is started anew.
func Restart(stream int) {
	if w := world; w != nil {
		w.streams[stream] = NewRng(w.Seed, 0xabc0+uint64(stream))
	}
}

// Epoch identifies the run (0 outside a run).
//
//go:noinline
func Epoch() uint64 {
	w := world
	if w == nil {
		return 0
	}
	return w.epoch
}
